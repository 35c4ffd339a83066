"""Symbolic execution of clang ASTs of the real code: generates the proof obligations."""
import re, sys, itertools, time
from fractions import Fraction
import term as tm
from term import T, TRUE, FALSE, num, var, fresh, add, sub, mul, ge, le, gt, lt, eq, ne, and_, or_, not_, implies, ite, select, store, lam, forall, asort, sum_
import smt
import ctypes_ as ct

sys.setrecursionlimit(100000)

class Unsupported(Exception): pass

# ------------------------------------------------------------------ values
class Loc:
    __slots__ = ("root", "path")
    def __init__(s, root, path=()): s.root, s.path = root, tuple(path)
    def f(s, name): return Loc(s.root, s.path + (("f", name),))
    def i(s, idx): return Loc(s.root, s.path + (("i", idx),))
    def key(s): return (s.root, s.path)
    def __eq__(s, o): return isinstance(o, Loc) and s.root == o.root and s.path == o.path
    def __hash__(s): return hash((s.root, s.path))
    def __repr__(s): return "&%s%s" % (s.root, "".join("." + p[1] if p[0] == "f" else "[%s]" % p[1] for p in s.path))
class Ptr:
    """base: Loc of an array-like object (Vec) with off: Int; or of a single object with off None"""
    __slots__ = ("base", "off", "null", "rev")
    def __init__(s, base, off=None, null=FALSE, rev=False): s.base, s.off, s.null, s.rev = base, off, null, rev
    def __repr__(s): return "Ptr(%r+%s%s)" % (s.base, s.off, "" if s.null is FALSE else " null=%s" % s.null)
class View:
    """strided addressing of a flat buffer: offset = sum_k coord_k * stride_k, 0 <= coord_k < ext_k (checked at every access, so the addressing is injective)"""
    def __init__(s, exts):
        s.exts = list(exts)          # extents, the last may be None (unknown)
        s.strides = [()]
        m = ()
        for e in s.exts[:-1]:
            p = tm._poly(e)
            if len(p) != 1 or list(p.values()) != [1] or () in p: raise Unsupported("view extent %s" % e)
            m = tuple(sorted(m + next(iter(p)), key=lambda x: x.uid)); s.strides.append(m)
    def coords(s, off):
        cs = [dict() for _ in s.exts]
        for m, c in tm._poly(off).items():
            for k in range(len(s.strides) - 1, -1, -1):
                q = _mdiv(m, s.strides[k])
                if q is not None:
                    cs[k][q] = cs[k].get(q, 0) + c; break
        return [tm._unpoly(d, "I") for d in cs]
class SegView:
    """consecutive column-major blocks in one buffer: coordinates (fastest, ..., number of the block)"""
    def __init__(s, segs):
        s.segs = [View(x) for x in segs]; s.bases = []; b = num(0)
        for x in segs:
            s.bases.append(b); p = num(1)
            for e in x: p = mul(p, e)
            b = add(b, p)
        s.total = b; s.exts = list(segs[0]) + [num(len(segs))]; s.strides = [()]
    def pick(s, off):
        for k in range(len(s.segs) - 1, 0, -1):
            d = sub(off, s.bases[k])
            if all(c >= 0 for c in tm._poly(d).values()): return k, d
        return 0, off
    def coords(s, off):
        k, d = s.pick(off)
        return s.segs[k].coords(d) + [num(k)]
    def bounds(s, off):
        k, d = s.pick(off)
        return view_bounds(s.segs[k], d)
def view_bounds(view, o):
    if isinstance(view, SegView): return view.bounds(o)
    f = TRUE
    for c, e in zip(view.coords(o), view.exts):
        f = and_(f, ge(c, num(0)))
        if e is not None: f = and_(f, lt(c, e))
    return f
def _mdiv(m, s):
    m = list(m)
    for a in s:
        if a in m: m.remove(a)
        else: return None
    return tuple(m)
class Vec:
    """n: length (None: raw buffer of unknown extent); e: lifted element tree"""
    __slots__ = ("n", "e", "ty", "view")
    def __init__(s, n, e, ty, view=None): s.n, s.e, s.ty, s.view = n, e, ty, view
    def __repr__(s): return "Vec(%s; %s)" % (s.n, s.e)
class Obj:
    __slots__ = ("ty", "f")
    def __init__(s, ty, f): s.ty, s.f = ty, f
    def __repr__(s): return "Obj(%s %s)" % (s.ty, s.f)
class Clo:
    __slots__ = ("node", "frame", "copies", "py")
    def __init__(s, node=None, frame=None, copies=None, py=None): s.node, s.frame, s.copies, s.py = node, frame, copies or {}, py
class BitRef:
    __slots__ = ("loc", "i")
    def __init__(s, loc, i): s.loc, s.i = loc, i
class WRef(BitRef):
    """word of a bitset's object representation (64-bit little-endian words): bits [lo, lo+w)"""
    __slots__ = ("lo", "w")
    def __init__(s, loc, lo, w): s.loc, s.i, s.lo, s.w = loc, None, lo, w
class WPtr:
    """pointer to words of width w inside the bitset at loc, starting at bit lo"""
    __slots__ = ("loc", "lo", "w")
    def __init__(s, loc, lo, w): s.loc, s.lo, s.w = loc, lo, w
class FnRef:
    __slots__ = ("name", "id")
    def __init__(s, name, id): s.name, s.id = name, id
class Str:
    __slots__ = ("s",)
    def __init__(s, x): s.s = x
class Opaque:
    __slots__ = ("ty", "d")
    def __init__(s, ty, d=None): s.ty, s.d = ty, d
VOID = Opaque("void")

def tmap(f, v):
    """map over leaves of a value tree"""
    if isinstance(v, T): return f(v)
    if isinstance(v, Vec): return Vec(None if v.n is None else f(v.n), tmap(f, v.e), v.ty, v.view)
    if isinstance(v, Obj): return Obj(v.ty, {k: tmap(f, x) for k, x in v.f.items()})
    if isinstance(v, Ptr): return Ptr(v.base, None if v.off is None else f(v.off), f(v.null), v.rev)
    return v
def tmap2(f, v, w):
    if isinstance(v, T) and isinstance(w, T): return f(v, w)
    if isinstance(v, Vec) and isinstance(w, Vec):
        return Vec(None if v.n is None else f(v.n, w.n), tmap2(f, v.e, w.e), v.ty, v.view)
    if isinstance(v, Obj) and isinstance(w, Obj): return Obj(v.ty, {k: tmap2(f, x, w.f[k]) for k, x in v.f.items()})
    raise Unsupported("tree mismatch %r %r" % (v, w))
def leaves(v):
    if isinstance(v, T): yield v
    elif isinstance(v, Vec):
        if v.n is not None: yield v.n
        yield from leaves(v.e)
    elif isinstance(v, Obj):
        for x in v.f.values(): yield from leaves(x)
    elif isinstance(v, Ptr):
        if v.off is not None: yield v.off
        yield v.null

def t_select(e, i): return tmap(lambda a: select(a, i), e)
def t_store(e, i, v): return tmap2(lambda a, x: store(a, i, _conv(x, a.sort[1])), e, v)
def view_store(e, cs, v):
    if len(cs) == 1: return t_store(e, cs[0], v)
    return tmap2(lambda a, x: store(a, cs[0], x), e, view_store(t_select(e, cs[0]), cs[1:], v))
def t_const(v): return tmap(tm.constarr, v)
def t_lam(vv, v): return tmap(lambda b: lam(vv, b), v)
def _conv(x, s):
    if x.sort == s: return x
    if s == "R" and x.sort == "I": return tm.toreal(x)
    if s == "I" and x.sort == "B": return ite(x, num(1), num(0))
    if s == "B" and x.sort == "I": return ne(x, num(0))
    if s == "R" and x.sort == "B": return ite(x, num(1, "R"), num(0, "R"))
    if s == "I" and isinstance(x.sort, tuple) and x.sort[0] == "BV": return tm.bv2int(x)
    if isinstance(s, tuple) and s[0] == "BV" and x.sort == "I": return tm.int2bv(x, s[1])
    raise Unsupported("conversion %s -> %s" % (x.sort, s))

class State:
    __slots__ = ("store", "pc", "nb")
    def __init__(s): s.store = {}; s.pc = (); s.nb = 0
    def copy(s):
        r = State.__new__(State); r.store = dict(s.store); r.pc = s.pc; r.nb = s.nb
        return r
    def fact(s, f):
        if f is not TRUE: s.pc = s.pc + (("f", f),)
    def branch(s, f): s.pc = s.pc + (("b", f),)
    def facts(s): return [f for _, f in s.pc]

class Frame:
    __slots__ = ("vars", "this", "fn", "parent")
    def __init__(s, fn, this=None, parent=None): s.vars = {}; s.this = this; s.fn = fn; s.parent = parent
    def get(s, d):
        f = s
        while f is not None:
            if d in f.vars: return f.vars[d]
            f = f.parent
        return None

class Oblig:
    __slots__ = ("name", "status", "time", "backend", "info", "hyps", "goal", "fn", "kind")

def rx(n): return n.get("inner", [])
def ty_of(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")
def skipcast(n):
    while n.get("kind") in ("ParenExpr", "ExprWithCleanups", "ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "SubstNonTypeTemplateParmExpr") and rx(n):
        if n.get("kind") in ("CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr") and n.get("castKind") not in ("NoOp", "ConstructorConversion", "LValueToRValue"): return n
        n = rx(n)[-1]
    return n

def canon_rec(s):
    s = ct.strip_cv(s.rstrip("& "))
    s = re.sub(r"\b\w+::", "", s)
    s = s.replace("int32_t", "int").replace("int64_t", "long").replace("uint64_t", "unsigned long").replace("size_t", "unsigned long")
    s = re.sub(r",allocator<\w+>", "", re.sub(r"\s+", "", s)).replace(",layout_left", "")
    s = re.sub(r"(\d)[uU]?[lL]{0,2}\b", r"\1", s)
    return re.sub(r"(cs[rc]|coo)_matrix<(double|float)>", r"\1_matrix<\2,long>", s)      # default index type

class Exec:
    def __init__(self, prog, contracts=None, timeout=2000, log=None):
        self.prog = prog
        self.contracts = contracts or {}       # qual -> callable(ex, st, fr, fn, argvals, this) -> value or NotImplemented
        self.obls = []
        self.assumed = set()
        self.timeout = timeout
        self.quick_to = 150
        self.roots = itertools.count()
        self.quiet = 0
        self.throws = []
        self.dry = 0
        self.wlog = None
        self.axioms = []                       # background facts (spec functions) for every query
        self.axiom_names = []
        self.cand_gens = []                    # candidate invariant generators
        self.loopstack = []
        self.loopstates = []
        self.calldepth = 0
        self.fn_stack = []
        self.check_bounds = True
        self.summarise = True
        self.functions = set()
        self.houdini_stats = {"loops": 0, "cands": 0, "kept": 0, "rounds": 0}
        self.recs = {}
        for q, f in prog.record_fields.items():
            if f or canon_rec(q) not in self.recs: self.recs[canon_rec(q)] = f
        self.known_cache = {}
        self.cur = "?"
        self.out = []
        self.loopinfo = []
        self.sum_hints = []

    # ---------------------------------------------------------------- types
    def new_root(self, name): return "%s@%d" % (name, next(self.roots))
    def leaf_sort(self, ty):
        k = ty[0]
        if k == "int": return "I"
        if k == "real": return "R"
        if k == "bool": return "B"
        if k == "bitset": return ("BV", ty[1]) if self.bits == "bv" else asort("B")
        return None
    check_orders = True # comparators of sorts must be strict weak orders on the elements
    sorted_leaves = None # names for the contents after the next sort (used once)
    bits = "bv"          # bitsets as bit vectors ("bv") or as total maps position -> bool that are false outside [0, N) ("set")
    def fields(self, s):
        f = self.recs.get(canon_rec(s))
        return f
    def fresh_val(self, ty, name, wrap=0):
        k = ty[0]
        s = self.leaf_sort(ty)
        if s is not None:
            for _ in range(wrap): s = asort(s)
            return fresh(name, s)
        if k == "vec":
            n = "I"
            for _ in range(wrap): n = asort(n)
            return Vec(fresh(name + ".n", n), self.fresh_val(ty[1], name, wrap + 1), ty[1])
        if k == "carr":
            n = num(ty[2])
            if wrap:
                for _ in range(wrap): n = tm.constarr(n)
            return Vec(n, self.fresh_val(ty[1], name, wrap + 1), ty[1])
        if k == "tuple":
            return Obj("tuple", {str(i): self.fresh_val(t, name + "." + str(i), wrap) for i, t in enumerate(ty[1])})
        if k == "rec":
            fs = self.fields(ty[1])
            if fs is not None:
                return Obj(ty[1], {f["name"]: self.fresh_val(ct.parse(ty_of(f)), name + "." + f["name"], wrap) for f in fs if "name" in f})
            if self.is_enum(ty[1]):
                s = "I"
                for _ in range(wrap): s = asort(s)
                return fresh(name, s)
            return Opaque(ty[1])
        if k == "ptr" and wrap == 0:
            return Ptr(None, None, TRUE)
        if k == "mdspan":
            return self.fresh_mdspan(ty, name)
        return Opaque(ty)
    def is_enum(self, s):
        c = canon_rec(s)
        for d in self.prog.decls.values():
            if d.get("kind") == "EnumDecl" and d.get("name") == c: return True
        return False
    def fresh_mdspan(self, ty, name): raise Unsupported("mdspan")
    def default_val(self, ty, name="v"):
        """value-initialised"""
        k = ty[0]
        s = self.leaf_sort(ty)
        if s == "I": return num(0)
        if s == "R": return num(0, "R")
        if s == "B": return FALSE
        if s is not None: return tm.bvc(0, s[1]) if s[0] == "BV" else tm.constarr(FALSE)
        if k == "vec": return Vec(num(0), t_const(self.elem0(ty[1])), ty[1])
        if k == "carr": return Vec(num(ty[2]), t_const(self.elem0(ty[1])), ty[1])
        if k == "tuple": return Obj("tuple", {str(i): self.default_val(t) for i, t in enumerate(ty[1])})
        if k == "ptr": return Ptr(None, None, TRUE)
        if k == "rec":
            fs = self.fields(ty[1])
            if fs is not None:
                d = {}
                for f in fs:
                    if "name" in f: d[f["name"]] = self.default_val(ct.parse(ty_of(f)))
                return Obj(ty[1], d)
            if self.is_enum(ty[1]): return num(0)
        return Opaque(ty)
    def elem0(self, ty):
        v = self.default_val(ty)
        return v

    # ---------------------------------------------------------------- memory
    def read(self, st, loc):
        v = st.store.get(loc.root)
        if v is None: raise Unsupported("read of unknown location %r" % loc)
        for kind, x in loc.path:
            if kind == "f":
                if not isinstance(v, Obj): raise Unsupported("field %s of %r" % (x, v))
                v = v.f[x]
            else:
                if isinstance(v, Vec): v = self.vec_read(st, v, x)
                else: raise Unsupported("index of %r" % (v,))
        return v
    def vec_read(self, st, v, i):
        if v.view is not None:
            e = v.e
            for c in v.view.coords(i): e = t_select(e, c)
            return e
        return t_select(v.e, i)
    def write(self, st, loc, val):
        if self.wlog is not None:
            p = []
            for kx in loc.path:
                if kx[0] == "i": break
                p.append(kx)
            self.wlog.setdefault((loc.root, tuple(p)), []).append((loc, val))
        st.store[loc.root] = self._upd(st, st.store.get(loc.root), loc.path, val)
    def _upd(self, st, v, path, val):
        if not path:
            if isinstance(v, T) and isinstance(val, T) and v.sort != val.sort: val = _conv(val, v.sort)
            return val
        kind, x = path[0]
        if kind == "f":
            d = dict(v.f); d[x] = self._upd(st, d.get(x), path[1:], val); return Obj(v.ty, d)
        if not isinstance(v, Vec): raise Unsupported("indexed write into %r" % (v,))
        if len(path) == 1: nv = val
        else: nv = self._upd(st, self.vec_read(st, v, x), path[1:], val)
        if v.view is not None: return Vec(v.n, view_store(v.e, v.view.coords(x), nv), v.ty, v.view)
        return Vec(v.n, t_store(v.e, x, nv), v.ty)

    def alloc(self, st, val, name="tmp"):
        r = self.new_root(name); st.store[r] = val
        return Loc(r)

    # ---------------------------------------------------------------- proving
    def hyps(self, st): return st.facts() + self.axioms
    def known(self, st, f, to=None):
        if f is TRUE: return True
        if f is FALSE: return False
        hy = st.facts()
        if f in hy: return True
        r = smt.prove(hy + self.axioms, f, to or self.quick_to)
        return r.status == "proved"
    cand_split = False
    dead = None           # condition -> the branch is outside the contract (its refutation is still demanded when it is executed; used where effects are collected)
    in_summ = 0
    array_hints = (); sort_hints = ()
    def note_sum(self, st, t, ps=()):
        """closed forms suggested by the contract for sums in t, accepted only when proved by induction on the upper bound"""
        """returns t with the proved closed forms put in place of the sums"""
        if self.dry or not isinstance(t, T): return t
        hints = list(self.sum_hints) if not ps else []
        if ps:
            for g in self.array_hints: hints += [h for h in g(*ps)]
        if not hints: return t
        repl = {}
        for s in list(tm.walk(t)):
            if s.op != "msum" or any(w.args[0].startswith("#") for w in tm.fv(s)): continue
            key, lo, hi, params, ab, u = smt.sumparts(s)
            if lo is not num(0): continue
            for F in hints:
                k = fresh("k", "I")
                if F(hi).sort != s.sort: continue
                hy = st.facts() + self.axioms
                if smt.prove(hy, eq(F(num(0)), num(0, s.sort)), 400).status != "proved": continue
                r = smt.prove(hy + [le(num(0), k), lt(k, hi)], eq(F(add(k, num(1))), add(F(k), smt.sum_body(s, k))), 1500)
                if r.status != "proved": continue
                if self.known(st, le(num(0), hi)): repl[s] = F(hi)
                else: st.fact(implies(le(num(0), hi), eq(s, F(hi))))
                if not self.quiet:
                    o = Oblig(); o.name = "closed form of a sum (induction on the bound)"; o.fn = self.cur; o.kind = "lemma"; o.hyps = hy; o.goal = TRUE
                    o.status, o.time, o.backend, o.info = "proved", r.time, r.backend, ""
                    self.obls.append(o)
                break
        return tm.replace(t, repl) if repl else t
    hintctx = 0
    read_hints = ()
    externs = {}           # name -> contract of a function without a body (ex, st, fr, args, node)
    perm_mid = None
    perm_hooks = ()        # (ex, st, base, old contents, new contents, lo, hi): consequences of a rearrangement
    count_hooks = ()       # (ex, st, set, width) -> its number of elements where a lemma gives it
    def oblige(self, st, name, f, kind="assert", timeout=None):
        """proof obligation at the current point"""
        if self.quiet or self.dry: return
        o = Oblig(); o.name = name; o.fn = self.cur; o.kind = kind
        o.hyps = self.hyps(st); o.goal = f
        r = smt.prove(o.hyps, f, timeout or self.timeout)
        if r.status != "proved" and kind != "auto":
            r2 = smt._z3(*_sk(o.hyps, f), timeout or self.timeout, (), seed=7) if f.op != "and" else r
            if r2.status == "proved": r = r2
        o.status, o.time, o.backend, o.info = r.status, r.time, r.backend, r.info
        self.obls.append(o)
        return o

    # ---------------------------------------------------------------- expressions
    def ev(self, st, fr, n):
        """rvalue"""
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported("expression %s" % k)
        return m(st, fr, n)
    def lv(self, st, fr, n):
        k = n["kind"]
        m = getattr(self, "l_" + k, None)
        if m is None:
            # prvalue bound to a reference
            v = self.ev(st, fr, n)
            return v if isinstance(v, BitRef) else self.alloc(st, v)
        return m(st, fr, n)
    def load(self, st, loc):
        if isinstance(loc, WRef):
            b = self.read(st, loc.loc)
            if not isinstance(b.sort, tuple) or b.sort[0] != "BV": raise Unsupported("word access to an abstract bitset")
            if loc.lo + loc.w > b.sort[1]:
                nw = (b.sort[1] + 63) // 64 * 64
                if loc.lo + loc.w > nw: self.oblige(st, "word access inside the bitset", FALSE, kind="bounds"); return fresh("w", ("BV", loc.w))
                b = tm.bvzext(b, nw)     # padding bits of the last word are zero
            return tm.bvext(b, loc.lo + loc.w - 1, loc.lo)
        if isinstance(loc, BitRef):
            b = self.read(st, loc.loc)
            return self.bit_test(st, b, loc.i)
        v = self.read(st, loc)
        if self.autoview and not self.dry and isinstance(v, T) and v.op == "ite": v = self.simp_ite(st, v)
        if self.read_hints and not self.dry and isinstance(v, T) and v.sort == "I" and v.op != "num" and loc.path and loc.path[-1][0] == "i":
            # the value in closed form, as suggested by the contract; used only when proved here
            for g in self.read_hints:
                for c in g(loc.path[-1][1], v):
                    if c is v or self.known(st, eq(v, c), 700): return c
        return v

    def e_ParenExpr(self, st, fr, n): return self.ev(st, fr, rx(n)[0])
    def l_ParenExpr(self, st, fr, n): return self.lv(st, fr, rx(n)[0])
    def e_ExprWithCleanups(self, st, fr, n): return self.ev(st, fr, rx(n)[0])
    def l_ExprWithCleanups(self, st, fr, n): return self.lv(st, fr, rx(n)[0])
    def e_ConstantExpr(self, st, fr, n):
        if "value" in n and ct.parse(ty_of(n))[0] == "int":
            try: return num(int(n["value"]))
            except ValueError: pass
        return self.ev(st, fr, rx(n)[0])
    def e_CXXNewExpr(self, st, fr, n):
        if not n.get("isArray"): raise Unsupported("new of one object")
        c = [x for x in rx(n) if x.get("kind")]; ty = ct.parse(ty_of(n))[1]
        if len(c) != 1 or ty[0] not in ("int", "real"): raise Unsupported("new[] with an initialiser")
        ln = self.ev(st, fr, c[0]); self.oblige(st, "size of new[]", le(num(0), ln), kind="bounds")
        return Ptr(self.alloc(st, Vec(ln, fresh("uninitialised", asort(self.leaf_sort(ty))), ty), "new"), num(0))
    def e_CXXBindTemporaryExpr(self, st, fr, n): return self.ev(st, fr, rx(n)[0])
    def e_SubstNonTypeTemplateParmExpr(self, st, fr, n): return self.ev(st, fr, [c for c in rx(n) if c.get("kind") != "NonTypeTemplateParmDecl"][-1])
    def e_MaterializeTemporaryExpr(self, st, fr, n): return self.ev(st, fr, rx(n)[0])
    def l_MaterializeTemporaryExpr(self, st, fr, n):
        c = rx(n)[0]
        if c.get("valueCategory") == "lvalue": return self.lv(st, fr, c)
        if ty_of(n).rstrip().endswith("::reference"): return self.lv(st, fr, c)      # proxy reference: keep what it refers to
        return self.alloc(st, self.ev(st, fr, c))
    def l_CXXBindTemporaryExpr(self, st, fr, n):
        if ty_of(n).rstrip().endswith("::reference"): return self.lv(st, fr, rx(n)[0])
        return self.alloc(st, self.ev(st, fr, rx(n)[0]))
    def e_CXXDefaultArgExpr(self, st, fr, n):
        if rx(n): return self.ev(st, fr, rx(n)[0])
        return Opaque("defaultarg")
    def e_CXXDefaultInitExpr(self, st, fr, n):
        if rx(n): return self.ev(st, fr, rx(n)[0])
        raise Unsupported("default member init")
    def e_IntegerLiteral(self, st, fr, n): return num(int(n["value"]))
    def e_CharacterLiteral(self, st, fr, n): return num(int(n["value"]))
    def e_FloatingLiteral(self, st, fr, n): return num(Fraction(float(n["value"])), "R")
    def e_CXXBoolLiteralExpr(self, st, fr, n): return TRUE if n["value"] else FALSE
    def e_StringLiteral(self, st, fr, n): return Str(n.get("value"))
    l_StringLiteral = e_StringLiteral
    def e_CXXNullPtrLiteralExpr(self, st, fr, n): return Ptr(None, None, TRUE)
    def e_GNUNullExpr(self, st, fr, n): return Ptr(None, None, TRUE)
    def e_ImplicitValueInitExpr(self, st, fr, n): return self.default_val(ct.parse(ty_of(n)))
    def e_CXXScalarValueInitExpr(self, st, fr, n): return self.default_val(ct.parse(ty_of(n)))
    def e_UnaryExprOrTypeTraitExpr(self, st, fr, n):
        if n.get("name") == "sizeof":
            t = n.get("argType", {}).get("desugaredQualType") or n.get("argType", {}).get("qualType")
            if t is None: t = ty_of(rx(n)[0])
            ty = ct.parse(t)
            if ty[0] == "int": return num(ty[1] // 8)
            if ty[0] == "real": return num(8)
            if ty[0] == "bool": return num(1)
            if ty[0] == "bitset": return num((ty[1] + 63) // 64 * 8)
        raise Unsupported("sizeof")
    def e_TypeTraitExpr(self, st, fr, n):
        return TRUE if n.get("value") else FALSE

    def declref(self, n): return n.get("referencedDecl", {})
    def l_DeclRefExpr(self, st, fr, n):
        d = self.declref(n)
        loc = fr.get(d["id"])
        if loc is not None: return loc
        dk = d.get("kind")
        dn = self.prog.decls.get(d["id"])
        if dn is not None and dn.get("kind") == "VarDecl":   # global / constexpr
            ini = [c for c in rx(dn) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
            if ini:
                v = self.ev(st, Frame(None), ini[-1])
                return self.alloc(st, v, d["name"])
        if dk == "FunctionDecl" or dk == "CXXMethodDecl": return FnRef(d["name"], d["id"])
        if str(d.get("name")).startswith("ompi_mpi_"): return self.alloc(st, Opaque(d["name"]), d["name"])      # predefined MPI objects
        raise Unsupported("reference to %s" % d.get("name"))
    def e_DeclRefExpr(self, st, fr, n):
        d = self.declref(n)
        if d.get("kind") == "EnumConstantDecl": return self.enum_val(d)
        if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"): return FnRef(d["name"], d["id"])
        loc = self.l_DeclRefExpr(st, fr, n)
        if isinstance(loc, FnRef): return loc
        return self.load(st, loc)
    def enum_val(self, d):
        # position in the enum
        dn = self.prog.decls.get(d["id"])
        for e in self.prog.decls.values():
            if e.get("kind") == "EnumDecl":
                cur = -1
                for c in rx(e):
                    if c.get("kind") == "EnumConstantDecl":
                        cur += 1
                        q = [x for x in rx(c) if x.get("kind") == "ConstantExpr"]
                        if q: cur = int(q[0].get("value", cur))
                        if c["id"] == d["id"]: return num(cur)
        h = sum(ord(ch) * (i + 1) for i, ch in enumerate(d.get("name", "")))
        return num(1000 + h)
    def e_CXXThisExpr(self, st, fr, n):
        f = fr
        while f is not None and f.this is None: f = f.parent
        return Ptr(f.this, None)
    def ptr_target(self, st, p):
        if isinstance(p, Loc): return p
        if isinstance(p, WPtr): return WRef(p.loc, p.lo, p.w)
        if isinstance(p, Opaque) and "logger" in str(p.ty): return self.alloc(st, p, "logger")
        if not isinstance(p, Ptr): raise Unsupported("deref of %r" % (p,))
        if p.base is None: raise Unsupported("null dereference")
        if p.off is None: return p.base
        o = sub(p.off, num(1)) if p.rev else p.off
        self.touch_view(st, p.base, o)
        self.bounds(st, p.base, o)
        return p.base.i(o)
    def bitidx(self, st, i, w, name):
        i = self.as_int(i)
        f = and_(ge(i, num(0)), lt(i, num(w)))
        if f is not TRUE and self.check_bounds and not self.quiet and not self.dry: self.oblige(st, "bitset::%s position in range" % name, f, kind="bounds")
        return i
    autoview = False; shapes = ()
    def simp_ite(self, st, t):
        """drop guards that the current facts decide"""
        while t.op == "ite" and not any(str(v.args[0]).startswith("#") for v in tm.fv(t.args[0])):
            if self.known(st, t.args[0], 300): t = t.args[1]
            elif self.known(st, not_(t.args[0]), 300): t = t.args[2]
            else: break
        return t
    def touch_view(self, st, base, o):
        if not self.autoview or self.dry: return
        import blas
        blas.resolve(self, st, base, o)
    def bounds(self, st, base, o):
        if not self.check_bounds or self.quiet or self.dry: return
        v = self.read(st, base)
        if isinstance(v, Vec) and v.view is not None:
            f = view_bounds(v.view, o)
            if f is not TRUE: self.oblige(st, "element lies inside the addressed matrix (every coordinate within its extent)", f, kind="bounds")
            return
        if isinstance(v, Vec) and v.n is not None:
            f = and_(ge(o, num(0)), lt(o, v.n))
            if f is TRUE: return
            self.oblige(st, "index in bounds", f, kind="bounds")
    def l_MemberExpr(self, st, fr, n):
        b = rx(n)[0]
        if n.get("isArrow"):
            p = self.ev(st, fr, b); base = self.ptr_target(st, p)
        else:
            base = self.lv(st, fr, b)
        nm = n.get("name")
        if isinstance(base, Loc):
            v = self.read(st, base)
            if isinstance(v, Obj) and v.ty == "tuple": nm = {"first": "0", "second": "1"}.get(nm, nm)
            if isinstance(v, Obj) and nm in v.f: 
                x = v.f[nm]
                if isinstance(x, Loc): return x      # reference member
                return base.f(nm)
            if isinstance(v, Obj):
                # static member / reference
                d = self.prog.decls.get(n.get("referencedMemberDecl"))
                if d is not None and d.get("kind") == "VarDecl":
                    ini = [c for c in rx(d) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                    if ini: return self.alloc(st, self.ev(st, Frame(None), ini[-1]))
        raise Unsupported("member %s of %r" % (nm, v))
    def e_MemberExpr(self, st, fr, n): return self.load(st, self.l_MemberExpr(st, fr, n))
    def l_ArraySubscriptExpr(self, st, fr, n):
        a, b = rx(n)
        p = self.ev(st, fr, a); i = self.as_int(self.ev(st, fr, b))
        return self.elem_loc(st, p, i)
    def elem_loc(self, st, p, i):
        if isinstance(p, WPtr):
            if i.op != "num": raise Unsupported("symbolic word index")
            return WRef(p.loc, p.lo + p.w * i.args[0], p.w)
        if isinstance(p, Ptr):
            if p.base is None: raise Unsupported("index of null pointer")
            if p.off is None:
                raise Unsupported("index of object pointer")
            o = add(p.off, i)
            self.touch_view(st, p.base, o)
            self.bounds(st, p.base, o)
            return p.base.i(o)
        raise Unsupported("subscript of %r" % (p,))
    def e_ArraySubscriptExpr(self, st, fr, n): return self.load(st, self.l_ArraySubscriptExpr(st, fr, n))

    def as_int(self, v):
        if isinstance(v, T):
            if v.sort == "I": return v
            return _conv(v, "I")
        raise Unsupported("integer expected, got %r" % (v,))
    def as_bool(self, v):
        if isinstance(v, T):
            if v.sort == "B": return v
            if v.sort == "I": return ne(v, num(0))
            if v.sort == "R": return ne(v, num(0, "R"))
            if v.sort[0] == "BV": return ne(v, tm.bvc(0, v.sort[1]))
        if isinstance(v, Ptr): return not_(v.null)
        if isinstance(v, Obj) and "has" in v.f: return v.f["has"]
        if isinstance(v, Opaque) and "logger" in str(v.ty): return fresh("logger", "B")
        raise Unsupported("bool expected, got %r %s" % (v, getattr(v, "ty", "")))

    # casts
    def e_ImplicitCastExpr(self, st, fr, n): return self.cast(st, fr, n)
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    def l_ImplicitCastExpr(self, st, fr, n):
        ck = n.get("castKind")
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"): return self.lv(st, fr, rx(n)[0])
        if ck == "FunctionToPointerDecay": return self.ev(st, fr, rx(n)[0])
        v = self.cast(st, fr, n)
        return v if isinstance(v, (BitRef, Loc)) else self.alloc(st, v)
    l_CXXStaticCastExpr = l_CStyleCastExpr = l_CXXConstCastExpr = l_ImplicitCastExpr
    def l_CXXReinterpretCastExpr(self, st, fr, n): raise Unsupported("reinterpret_cast lvalue")
    def cast(self, st, fr, n):
        ck = n.get("castKind"); c = rx(n)[0]
        if ck in ("LValueToRValue",):
            return self.load(st, self.lv(st, fr, c))
        if ck in ("NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "BuiltinFnToFnPtr", "LValueToRValueBitCast", "BaseToDerived"):
            return self.ev(st, fr, c)
        if ck == "ArrayToPointerDecay":
            if c.get("kind") == "StringLiteral": return Str(c.get("value"))
            l = self.lv(st, fr, c)
            return Ptr(l, num(0)) if isinstance(l, Loc) else l
        if ck in ("NullToPointer",): return Ptr(None, None, TRUE)
        if ck == "ToVoid": self.ev(st, fr, c); return VOID
        v = self.ev(st, fr, c)
        src, dst = ct.parse(ty_of(c)), ct.parse(ty_of(n))
        if ck == "IntegralCast":
            if n.get("isPartOfExplicitCast") and src[0] == dst[0] == "int" and dst[1] < src[1] and isinstance(v, T) and v.sort == "I" and v.op != "num":
                # an explicit narrowing keeps the value only when it provably fits; otherwise it wraps
                h = num(1 << (dst[1] - 1)) if dst[2] else num(0); m = num(1 << dst[1])
                if self.known(st, and_(ge(add(v, h), num(0)), lt(add(v, h), m)), 300): return v
                return sub(tm.imod(add(v, h), m), h)
            return self.int_conv(st, v, src, dst)
        if ck == "IntegralToBoolean": return self.as_bool(v)
        if ck in ("IntegralToFloating",): return self.to_real(v)
        if ck == "FloatingToIntegral": return self.real_trunc(v)
        if ck == "FloatingCast": return v
        if ck == "FloatingToBoolean" or ck == "PointerToBoolean" or ck == "MemberPointerToBoolean": return self.as_bool(v)
        if ck == "BitCast":
            if isinstance(v, Ptr) and v.base is not None and v.off is None and dst[0] == "ptr" and dst[1][0] == "int":
                b = self.read(st, v.base)
                if isinstance(b, T) and isinstance(b.sort, tuple) and b.sort[0] == "BV": return WPtr(v.base, 0, dst[1][1])
            return v
        raise Unsupported("cast %s" % ck)
    def to_real(self, v):
        if v.sort == "R": return v
        if v.sort == "B": return _conv(v, "R")
        return tm.toreal(self.as_int(v))
    def real_trunc(self, v):
        if v.op == "toreal": return v.args[0]
        return tm.app("trunc", [v], "I")
    def int_conv(self, st, v, src, dst):
        if not isinstance(v, T): 
            if isinstance(v, Obj) or isinstance(v, Opaque): return v
            raise Unsupported("int conversion of %r" % (v,))
        if v.sort == "B": v = ite(v, num(1), num(0)) 
        if isinstance(v.sort, tuple) and v.sort[0] == "BV":
            if dst[0] != "int": return v
            w = v.sort[1]; d = dst[1]
            if d == w: return v
            if d < w: return tm.bvext(v, d - 1, 0)
            if src[0] == "int" and src[2]: return tm.bvsext(v, d)
            return tm.bvzext(v, d)
        if dst[0] == "bool": return ne(v, num(0))
        if dst[0] != "int": return v
        if v.op == "num":
            c = v.args[0]; w, sg = dst[1], dst[2]
            c &= (1 << w) - 1
            if sg and c >= 1 << (w - 1): c -= 1 << w
            return num(c)
        if src[0] == "int" and src[2] and not dst[2]:
            # signed -> unsigned
            if self.known(st, ge(v, num(0))): return v
            return ite(ge(v, num(0)), v, add(v, num(1 << dst[1])))
        if src[0] == "int" and not src[2] and dst[2] and dst[1] <= src[1]:
            # unsigned -> signed of the same/smaller width: value-preserving unless >= 2^(w-1); wrap handled for the "negative" encodings
            v = self.unwrap(v, 1 << dst[1])
            if v.op == "ite" or v.op == "poly" and any(abs(c) >= 1 << 31 for m, c in v.args):
                h = num(1 << (dst[1] - 1))
                if self.known(st, lt(v, h)): return v
                return ite(lt(v, h), v, sub(v, num(1 << src[1])))
            self.assumed.add("integer conversions to a narrower or signed type keep the value (no overflow of the declared index types)")
            return v
        if src[0] == "int" and dst[1] < src[1]:
            self.assumed.add("integer conversions to a narrower or signed type keep the value (no overflow of the declared index types)")
        return v

    def unwrap(self, v, M):
        """a value equal to v modulo M without the case splits that only differ by multiples of M (signed -> unsigned -> signed round trips)"""
        def go(x):
            if x.op == "ite":
                d = sub(x.args[1], x.args[2])
                if d.op == "num" and d.args[0] % M == 0:
                    a, b = go(x.args[1]), go(x.args[2])
                    big = lambda t: t.op == "num" and abs(t.args[0]) >= M or t.op == "poly" and any(abs(c) >= M for m, c in t.args)
                    return b if big(a) else a
                return x
            if x.op == "poly":
                r = num(0)
                for m, c in x.args:
                    t = num(c)
                    for a in m: t = mul(t, go(a) if len(m) == 1 else a)
                    r = add(r, t)
                if r.op == "poly":
                    q = []
                    for m, c in r.args:
                        if m == () and abs(c) >= M // 2: c = (c + M // 2) % M - M // 2
                        t = num(c)
                        for a in m: t = mul(t, a)
                        q.append(t)
                    r = num(0)
                    for t in q: r = add(r, t)
                return r
            return x
        return go(v)
    # operators
    def e_UnaryOperator(self, st, fr, n):
        op = n["opcode"]; c = rx(n)[0]
        if op == "&":
            x = c
            while x.get("kind") in ("ParenExpr", "ImplicitCastExpr") and len(rx(x)) == 1: x = rx(x)[0]
            if x.get("kind") == "CXXOperatorCallExpr" and len(rx(x)) == 2 and self.callee(x).get("referencedDecl", {}).get("name") == "operator*" and self.prog.find_def(self.callee(x)["referencedDecl"].get("id")) is None:
                p = self.ev(st, fr, rx(x)[1])       # &*it: the element is not accessed, the end of a range is allowed
                if isinstance(p, Ptr) and p.off is not None and not p.rev: return p
            l = self.lv(st, fr, c)
            if isinstance(l, FnRef): return l
            if l.path and l.path[-1][0] == "i": return Ptr(Loc(l.root, l.path[:-1]), l.path[-1][1])
            return Ptr(l, None)
        if op == "*": return self.load(st, self.l_UnaryOperator(st, fr, n))
        if op in ("++", "--"):
            l = self.lv(st, fr, c); v = self.load(st, l)
            nv = self.step(st, v, 1 if op == "++" else -1, ct.parse(ty_of(c)))
            self.assign(st, l, nv)
            return v if n.get("isPostfix") else nv
        v = self.ev(st, fr, c)
        if op == "-":
            ty = ct.parse(ty_of(n))
            if isinstance(v.sort, tuple): return tm.bv("neg", v)
            r = tm.neg(v)
            if ty[0] == "int" and not ty[2]: return self.wrap_unsigned(st, r, ty)
            return r
        if op == "+": return v
        if op == "!": return not_(self.as_bool(v))
        if op == "~":
            if isinstance(v.sort, tuple): return tm.bv("not", v)
            ty = ct.parse(ty_of(n))
            if ty[2]: return sub(num(-1), v)
            return sub(num((1 << ty[1]) - 1), v)
        raise Unsupported("unary " + op)
    def l_UnaryOperator(self, st, fr, n):
        op = n["opcode"]; c = rx(n)[0]
        if op == "*":
            return self.ptr_target(st, self.ev(st, fr, c))
        if op in ("++", "--") and not n.get("isPostfix"):
            self.e_UnaryOperator(st, fr, n); return self.lv(st, fr, c)
        raise Unsupported("lvalue unary " + op)
    def step(self, st, v, d, ty):
        if isinstance(v, Ptr): 
            if v.rev: d = -d
            return Ptr(v.base, add(v.off, num(d)), v.null, v.rev)
        if isinstance(v.sort, tuple): return tm.bv("add", v, tm.bvc(d, v.sort[1]))
        r = add(v, num(d, v.sort))
        if d < 0 and ty[0] == "int" and not ty[2]: return self.wrap_unsigned(st, r, ty)
        return r
    def wrap_unsigned(self, st, r, ty):
        if self.known(st, ge(r, num(0))): return r
        if r.op == "num": return num(r.args[0] % (1 << ty[1]))
        return ite(ge(r, num(0)), r, add(r, num(1 << ty[1])))
    def assign(self, st, l, v):
        if isinstance(l, WRef):
            b = self.read(st, l.loc); W = b.sort[1]
            if l.lo + l.w > W: raise Unsupported("word write beyond the bitset")
            v = v if isinstance(v.sort, tuple) else tm.int2bv(v, l.w)
            if l.lo: v = tm.bvcat(v, tm.bvext(b, l.lo - 1, 0))
            if l.lo + l.w < W: v = tm.bvcat(tm.bvext(b, W - 1, l.lo + l.w), v)
            self.write(st, l.loc, v); return
        if isinstance(l, BitRef):
            b = self.read(st, l.loc)
            self.write(st, l.loc, self.bit_set(st, b, l.i, self.as_bool(v)))
            return
        if isinstance(l, Loc): 
            self.write(st, l, v); return
        raise Unsupported("assignment to %r" % (l,))

    def e_BinaryOperator(self, st, fr, n):
        op = n["opcode"]; a, b = rx(n)
        if op == "=":
            v = self.ev(st, fr, b); l = self.lv(st, fr, a); self.assign(st, l, v); return v
        if op == ",":
            self.ev(st, fr, a); return self.ev(st, fr, b)
        if op == "&&" or op == "||":
            x = self.as_bool(self.ev(st, fr, a))
            s2 = st.copy()
            s2.branch(x if op == "&&" else not_(x))
            base = len(st.pc)
            y = self.as_bool(self.ev(s2, fr, b))
            # side effects on the right are merged (calls may allocate temporaries)
            self.merge_into(st, s2, x if op == "&&" else not_(x), base)
            return and_(x, y) if op == "&&" else or_(x, y)
        x = self.ev(st, fr, a); y = self.ev(st, fr, b)
        return self.binop(st, op, x, y, ct.parse(ty_of(a)), ct.parse(ty_of(n)))
    def l_BinaryOperator(self, st, fr, n):
        if n["opcode"] == "=":
            a, b = rx(n)
            v = self.ev(st, fr, b); l = self.lv(st, fr, a); self.assign(st, l, v); return l
        if n["opcode"] == ",":
            self.ev(st, fr, rx(n)[0]); return self.lv(st, fr, rx(n)[1])
        raise Unsupported("lvalue binary")
    def merge_into(self, st, s2, cond, base):
        """st := (cond ? s2 : st) for store effects; facts of s2 guarded"""
        facts = [f for k, f in s2.pc[base:] if k == "f"]
        for r, v2 in s2.store.items():
            v1 = st.store.get(r)
            if v1 is None: st.store[r] = v2
            elif v1 is not v2: st.store[r] = self.merge_val(cond, v2, v1)
        for f in facts: st.fact(implies(cond, f))
    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return Vec(None if a.n is None else ite(c, a.n, b.n), self.merge_val(c, a.e, b.e), a.ty, a.view)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return Obj(a.ty, {k: self.merge_val(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base is None and b.base is not None: return Ptr(b.base, b.off, ite(c, TRUE, b.null), b.rev)
            if b.base is None and a.base is not None: return Ptr(a.base, a.off, ite(c, a.null, TRUE), a.rev)
            if a.base is None: return a
            if a.base == b.base and a.rev == b.rev and (a.off is None) == (b.off is None):
                return Ptr(a.base, None if a.off is None else ite(c, a.off, b.off), ite(c, a.null, b.null), a.rev)
        if isinstance(a, Opaque) and isinstance(b, Opaque): return a
        if isinstance(a, Str) and isinstance(b, Str): return a
        if isinstance(a, Loc) and isinstance(b, Loc) and a == b: return a
        raise Unsupported("merge of %r and %r" % (a, b))

    def binop(self, st, op, x, y, ty, rty):
        if isinstance(x, Ptr) or isinstance(y, Ptr): return self.ptrop(st, op, x, y)
        if not isinstance(x, T) or not isinstance(y, T): raise Unsupported("operands of %s: %r %r" % (op, x, y))
        cmp = op in ("<", ">", "<=", ">=", "==", "!=")
        bx = isinstance(x.sort, tuple); by = isinstance(y.sort, tuple)
        if bx or by:
            return self.bvop(st, op, x, y, ty, rty)
        if op in ("&", "|", "^", "<<", ">>", "%") or op == "/" and rty[0] == "int":
            return self.intop(st, op, x, y, rty)
        if x.sort == "B" and y.sort == "B" and op in ("==", "!="): 
            return eq(x, y) if op == "==" else ne(x, y)
        if x.sort == "B": x = ite(x, num(1), num(0))
        if y.sort == "B": y = ite(y, num(1), num(0))
        if cmp:
            return {"<": lt, ">": gt, "<=": le, ">=": ge, "==": eq, "!=": ne}[op](x, y)
        if op == "+": r = add(x, y)
        elif op == "-": r = sub(x, y)
        elif op == "*": r = mul(x, y)
        elif op == "/": return tm.rdiv(x, y)
        else: raise Unsupported("operator " + op)
        if rty[0] == "int" and not rty[2]:
            if op == "-": return self.wrap_unsigned(st, r, rty)
            big = any(t.op == "num" and t.args[0] >= 1 << (rty[1] - 1) for t in (x, y)) or any(t.op == "ite" for t in (x, y)) or any(t.op == "poly" and any(abs(c) >= 1 << 31 for m, c in t.args) for t in (x, y))
            if big and op == "+":
                B = num(1 << rty[1])
                if self.known(st, ge(r, B)): return sub(r, B)
                if self.known(st, lt(r, B)): return r
                return ite(ge(r, B), sub(r, B), r)
            self.assumed.add("unsigned additions and products do not wrap (sizes fit the declared types)")
        elif rty[0] == "int": self.assumed.add("signed integer arithmetic does not overflow")
        return r
    def intop(self, st, op, x, y, rty):
        def flag(v):
            if v.sort == "B": return v
            if v.op == "ite" and v.args[1] is num(1) and v.args[2] is num(0): return v.args[0]
            if v.op == "ite" and v.args[1] is num(0) and v.args[2] is num(1): return not_(v.args[0])
            if v is num(0): return FALSE
            if v is num(1): return TRUE
        if op in ("^", "&", "|"):
            fx, fy = flag(x), flag(y)
            if fx is not None and fy is not None:
                return ite(ne(fx, fy) if op == "^" else and_(fx, fy) if op == "&" else or_(fx, fy), num(1), num(0))
        x, y = self.as_int(x), self.as_int(y)
        if op in ("<<", ">>"): self.shift_ok(st, y, rty[1])
        if op == "<<":
            if y.op == "num": return mul(x, num(1 << y.args[0]))
            return mul(x, tm.app("pow2", [y], "I"))
        if op == ">>":
            if y.op == "num" and self.known(st, ge(x, num(0))): return tm.idiv(x, num(1 << y.args[0]))
        if op in ("/", "%"):
            f = tm.idiv if op == "/" else tm.imod
            if (not rty[2] or self.known(st, ge(x, num(0)))) and (not rty[2] or self.known(st, gt(y, num(0)))):
                return f(x, y)
            if self.known(st, gt(y, num(0))):
                if op == "/": return ite(ge(x, num(0)), tm.idiv(x, y), tm.neg(tm.idiv(tm.neg(x), y)))
                return ite(ge(x, num(0)), tm.imod(x, y), tm.neg(tm.imod(tm.neg(x), y)))
            raise Unsupported("division by possibly non-positive value")
        if op == "&" and y.op == "num" and ((y.args[0] + 1) & y.args[0]) == 0 and self.known(st, ge(x, num(0))):
            return tm.imod(x, num(y.args[0] + 1))
        if x.op == "num" and y.op == "num":
            a, b = x.args[0], y.args[0]
            return num({"&": a & b, "|": a | b, "^": a ^ b}[op])
        if op == "^" and x.sort == "I":
            pass
        # go through bit vectors of the result width
        w = rty[1]
        X, Y = tm.int2bv(x, w), tm.int2bv(y, w)
        o = {"&": "and", "|": "or", "^": "xor", ">>": "lshr"}[op]
        return tm.bv2int(tm.bv(o, X, Y))
    def shift_ok(self, st, y, w):
        """the shift count of a built-in integer is below the width of the operand (anything else is undefined in C++)"""
        if y.op == "num" and 0 <= y.args[0] < w: return
        if self.check_bounds: self.oblige(st, "shift count below the operand width", and_(ge(y, num(0)), lt(y, num(w))), kind="bounds")
    def bvop(self, st, op, x, y, ty, rty):
        w = x.sort[1] if isinstance(x.sort, tuple) else y.sort[1]
        if op in ("<<", ">>"):
            if rty[0] == "int": self.shift_ok(st, self.as_int(y), rty[1])
            if not isinstance(x.sort, tuple): x = tm.int2bv(x, rty[1] if rty[0] == "int" else w)
            w = x.sort[1]
            Y = y
            if isinstance(y.sort, tuple): Y = y
            else: Y = tm.int2bv(y, w)
            if Y.sort[1] < w: Y = tm.bvzext(Y, w)
            elif Y.sort[1] > w: Y = tm.bvext(Y, w - 1, 0)
            return tm.bv("shl" if op == "<<" else "lshr", x, Y)
        def cv(v):
            if isinstance(v.sort, tuple):
                return v if v.sort[1] == w else (tm.bvzext(v, w) if v.sort[1] < w else tm.bvext(v, w - 1, 0))
            if v.sort == "B": return ite(v, tm.bvc(1, w), tm.bvc(0, w))
            return tm.int2bv(v, w)
        if isinstance(x.sort, tuple) and isinstance(y.sort, tuple): w = max(x.sort[1], y.sort[1])
        x, y = cv(x), cv(y)
        if op == "==": return eq(x, y)
        if op == "!=": return ne(x, y)
        if op == "<": return tm.bv("ult", x, y)
        if op == ">": return tm.bv("ult", y, x)
        if op == "<=": return tm.bv("ule", x, y)
        if op == ">=": return tm.bv("ule", y, x)
        o = {"&": "and", "|": "or", "^": "xor", "+": "add", "-": "sub", "*": "mul"}.get(op)
        if o is None:
            if op == "%" and y.op == "bvc" and (y.args[0] & (y.args[0] - 1)) == 0: return tm.bv("and", x, tm.bvc(y.args[0] - 1, w))
            if op == "/" and y.op == "bvc" and (y.args[0] & (y.args[0] - 1)) == 0: return tm.bv("lshr", x, tm.bvc(y.args[0].bit_length() - 1, w))
            raise Unsupported("bit operator " + op)
        return tm.bv(o, x, y)
    def ptrop(self, st, op, x, y):
        if isinstance(x, Ptr) and isinstance(y, T):
            y = self.as_int(y)
            if op in ("+", "-"):
                if x.off is None: raise Unsupported("arithmetic on object pointer")
                d = y if (op == "+") != x.rev else tm.neg(y)
                return Ptr(x.base, add(x.off, d), x.null, x.rev)
        if isinstance(y, Ptr) and isinstance(x, T) and op == "+": return self.ptrop(st, op, y, x)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.base is None or y.base is None:
                e = and_(x.null, y.null)
                if op == "==": return e
                if op == "!=": return not_(e)
            if x.base == y.base and x.off is not None and y.off is not None:
                if op == "-": return sub(x.off, y.off) if not x.rev else sub(y.off, x.off)
                a, b = (x.off, y.off) if not x.rev else (y.off, x.off)
                return {"==": eq, "!=": ne, "<": lt, ">": gt, "<=": le, ">=": ge}[op](a, b)
            if op in ("==", "!="): return FALSE if op == "==" else TRUE
        raise Unsupported("pointer operation %s %r %r" % (op, x, y))

    def e_CompoundAssignOperator(self, st, fr, n):
        return self.load(st, self.l_CompoundAssignOperator(st, fr, n))
    def l_CompoundAssignOperator(self, st, fr, n):
        a, b = rx(n); op = n["opcode"][:-1]
        y = self.ev(st, fr, b)
        l = self.lv(st, fr, a)
        x = self.load(st, l)
        lty = ct.parse(ty_of(a))
        cty = n.get("computeResultType", {}); cty = ct.parse(cty.get("desugaredQualType") or cty.get("qualType") or ty_of(n))
        if isinstance(x, Ptr): self.assign(st, l, self.ptrop(st, op, x, y)); return l
        x2 = x
        if lty[0] == "int" and cty[0] == "int": x2 = self.int_conv(st, x, lty, cty)
        elif lty[0] == "int" and cty[0] == "real": x2 = self.to_real(x)
        if isinstance(y, T) and cty[0] == "real": y = self.to_real(y)
        r = self.binop(st, op, x2, y, cty, cty)
        if lty[0] == "int" and cty[0] == "int": r = self.int_conv(st, r, cty, lty)
        elif lty[0] == "int" and cty[0] == "real": r = self.real_trunc(r)
        if lty[0] == "bool": r = self.as_bool(r)
        self.assign(st, l, r)
        return l
    def e_ConditionalOperator(self, st, fr, n):
        c, a, b = rx(n)
        cv = self.as_bool(self.ev(st, fr, c))
        if cv is TRUE: return self.ev(st, fr, a)
        if cv is FALSE: return self.ev(st, fr, b)
        base = len(st.pc)
        s1 = st.copy(); s1.branch(cv)
        s2 = st.copy(); s2.branch(not_(cv))
        va = None; vb = None
        if a.get("kind") == "CXXThrowExpr":
            vb = self.ev(s2, fr, b); self.throws.append((s1, "throw")); st.store = s2.store; st.pc = s2.pc; return vb
        if b.get("kind") == "CXXThrowExpr":
            va = self.ev(s1, fr, a); self.throws.append((s2, "throw")); st.store = s1.store; st.pc = s1.pc; return va
        va = self.ev(s1, fr, a); vb = self.ev(s2, fr, b)
        s = self.merge(s1, s2, base)
        st.store = s.store; st.pc = s.pc
        return self.merge_val(cv, va, vb)
    def l_ConditionalOperator(self, st, fr, n):
        c, a, b = rx(n)
        cv = self.as_bool(self.ev(st, fr, c))
        if cv is TRUE: return self.lv(st, fr, a)
        if cv is FALSE: return self.lv(st, fr, b)
        la, lb = self.lv(st, fr, a), self.lv(st, fr, b)
        if la == lb: return la
        return self.alloc(st, self.merge_val(cv, self.load(st, la), self.load(st, lb)))
    def e_CXXRewrittenBinaryOperator(self, st, fr, n): return self.ev(st, fr, rx(n)[0])
    def e_CXXThrowExpr(self, st, fr, n): raise Unsupported("throw expression")
    def e_LambdaExpr(self, st, fr, n):
        rec = rx(n)[0]
        caps = []
        inner = rx(n)[1:]
        flds = [c for c in rx(rec) if c.get("kind") == "FieldDecl"]
        copies = {}
        inits = inner[:len(flds)]
        for fd, ini in zip(flds, inits):
            t = fd.get("type", {}).get("qualType", "")
            if t.endswith("&"): continue
            x = skipcast(ini)
            while x.get("kind") == "CXXConstructExpr" and rx(x): x = skipcast(rx(x)[0])
            if x.get("kind") == "DeclRefExpr":
                d = x["referencedDecl"]["id"]
                loc = fr.get(d)
                if loc is not None and not isinstance(loc, BitRef):
                    copies[d] = self.alloc(st, self.load(st, loc), "cap")
            elif x.get("kind") == "CXXThisExpr": pass
        return Clo(n, fr, copies)

    def e_InitListExpr(self, st, fr, n):
        ty = ct.parse(ty_of(n))
        return self.init_list(st, fr, ty, rx(n))
    def init_list(self, st, fr, ty, items):
        items = [c for c in items if c.get("kind") != "array_filler" and "kind" in c]
        if ty[0] in ("carr", "vec"):
            e0 = t_const(self.elem0(ty[1]))
            for i, c in enumerate(items): e0 = t_store(e0, num(i), self.ev(st, fr, c))
            nn = ty[2] if ty[0] == "carr" else len(items)
            return Vec(num(nn), e0, ty[1])
        if ty[0] == "tuple":
            return Obj("tuple", {str(i): self.ev(st, fr, c) for i, c in enumerate(items)})
        if ty[0] == "rec":
            fs = self.fields(ty[1])
            if fs is not None:
                d = {}
                names = [f["name"] for f in fs]
                for f, c in zip(fs, items):
                    if ct.parse(ty_of(f))[0] == "ref": d[f["name"]] = self.lv(st, fr, c)
                    else: d[f["name"]] = self.ev(st, fr, c)
                for f in fs[len(items):]: d[f["name"]] = self.default_val(ct.parse(ty_of(f)))
                return Obj(ty[1], d)
            if len(items) == 1: return self.ev(st, fr, items[0])
        if ty[0] in ("int", "real", "bool", "ptr"):
            return self.ev(st, fr, items[0]) if items else self.default_val(ty)
        raise Unsupported("initializer list of %s" % (ty,))
    def e_CXXStdInitializerListExpr(self, st, fr, n):
        c = rx(n)[0]
        while c.get("kind") in ("MaterializeTemporaryExpr", "ImplicitCastExpr", "ExprWithCleanups"): c = rx(c)[0]
        return self.ev(st, fr, c)

    # ---------------------------------------------------------------- construction
    def e_CXXTemporaryObjectExpr(self, st, fr, n): return self.e_CXXConstructExpr(st, fr, n)
    def e_CXXConstructExpr(self, st, fr, n):
        ty = ct.parse(ty_of(n))
        args = [a for a in rx(n)]
        args = [a for a in args if not (a.get("kind") == "CXXDefaultArgExpr" and "alloc" in a.get("type", {}).get("qualType", ""))]
        return self.construct(st, fr, ty, args, n)
    def is_same_class(self, a, ty):
        t2 = ct.parse(ty_of(a))
        if t2[0] == "ref": t2 = t2[1]
        if t2 == ty: return True
        if t2[0] == "rec" and ty[0] == "rec": return canon_rec(t2[1]) == canon_rec(ty[1])
        return False
    def construct(self, st, fr, ty, args, n):
        k = ty[0]
        if len(args) == 1 and self.is_same_class(args[0], ty) and k not in ("int", "real", "bool"):
            v = self.ev(st, fr, args[0])
            cty = n.get("ctorType", {}).get("qualType", "")
            if k == "rec" and "&&" not in cty and n.get("kind") == "CXXConstructExpr":
                f = self.find_ctor(ty[1], n.get("ctorType", {}), 1)
                if f is not None and f.body is not None and not f.node.get("isImplicit") and not f.node.get("explicitlyDefaulted"): return self.run_ctor(st, fr, f, ty, args)
            if "&&" in cty: self.moved_from(st, fr, args[0], v)
            return v
        if k == "vec": return self.construct_vec(st, fr, ty, args)
        if k == "carr":
            if not args: return self.fresh_val(ty, "arr")
        if k == "bitset":
            if not args: return self.default_val(ty)
            v = self.ev(st, fr, args[0])
            if self.bits == "set" and isinstance(v, T):
                if isinstance(v.sort, tuple): return v
                if v.op == "num" and 0 <= v.args[0]:
                    r = tm.constarr(FALSE)
                    for kk in range(min(64, ty[1])):
                        if v.args[0] >> kk & 1: r = store(r, num(kk), TRUE)
                    return r
                if v.op == "app" and v.args[0] == "pow2":
                    kk = fresh("i", "I"); return lam(kk, and_(eq(kk, v.args[1]), ge(kk, num(0)), lt(kk, num(min(64, ty[1])))))
                raise Unsupported("abstract bitset from an integer")
            if isinstance(v, T):
                if isinstance(v.sort, tuple): return tm.bvzext(v, ty[1]) if v.sort[1] <= ty[1] else tm.bvext(v, ty[1] - 1, 0)
                if v.op == "num": return tm.bvc(v.args[0] & ((1 << 64) - 1), ty[1])
                b = tm.int2bv(v, 64)
                return tm.bvzext(b, ty[1]) if ty[1] >= 64 else tm.bvext(b, ty[1] - 1, 0)
            raise Unsupported("bitset from %r" % (v,))
        if k == "tuple":
            if not args: return self.default_val(ty)
            if len(args) == 1 and len(ty[1]) != 1:
                v = self.ev(st, fr, args[0])
                if isinstance(v, Obj) and v.ty == "tuple": 
                    return Obj("tuple", {kk: (self.load(st, x) if isinstance(x, Loc) else x) for kk, x in v.f.items()})
                raise Unsupported("tuple from %r" % (v,))
            vs = [self.ev(st, fr, a) for a in args]
            return Obj("tuple", {str(i): self.coerce(st, v, t) for i, (v, t) in enumerate(zip(vs, ty[1]))})
        if k == "ptr":
            if not args: return Ptr(None, None, TRUE)
            return self.ev(st, fr, args[0])
        if k in ("int", "real", "bool"):
            return self.ev(st, fr, args[0]) if args else self.default_val(ty)
        if k == "opt":
            if not args: return Obj("opt", {"has": FALSE, "val": self.fresh_val(ty[1], "opt")})
            v = self.ev(st, fr, args[0])
            if isinstance(v, Opaque): return Obj("opt", {"has": FALSE, "val": self.fresh_val(ty[1], "opt")})
            return Obj("opt", {"has": TRUE, "val": v})
        if k == "rec":
            h = self.ctor_hook(st, fr, ty, args, n)
            if h is not None: return h
            c = canon_rec(ty[1])
            fs = self.fields(ty[1])
            if fs is not None:
                f = self.find_ctor(ty[1], n.get("ctorType", {}), len(args))
                if f is not None: return self.run_ctor(st, fr, f, ty, args)
                if not args: return self.default_rec(st, fr, ty)
                if n.get("kind") == "CXXConstructExpr" and len(args) == 1:
                    return self.ev(st, fr, args[0])
            if "fstream" in ty[1]:
                if "fstream.open" not in self.externs: raise Unsupported("file stream")
                return self.externs["fstream.open"](self, st, fr, args, "o" if "ofstream" in ty[1] else "i")
            for a in args:
                try: self.ev(st, fr, a)
                except Unsupported: pass
            return Opaque(ty[1])
        if k == "str":
            if not args: return Vec(num(0), tm.constarr(num(0)), ("int", 8, True))
            if len(args) == 1:
                try: v = self.ev(st, fr, args[0])
                except Unsupported: return Str(None)
                if isinstance(v, Loc): v = self.load(st, v)
                if isinstance(v, Vec): return v
            return Str(None)
        if k == "fn" or k == "clo":
            if args: return self.ev(st, fr, args[0])
        if k in ("riter",):
            v = self.ev(st, fr, args[0]); return Ptr(v.base, v.off, v.null, True)
        if k == "mdspan": return self.construct_mdspan(st, fr, ty, args)
        raise Unsupported("construction of %s" % (ty,))
    def ctor_hook(self, st, fr, ty, args, n): return None
    def construct_mdspan(self, st, fr, ty, args): raise Unsupported("mdspan")
    def default_rec(self, st, fr, ty):
        d = {}
        for f in self.fields(ty[1]):
            ini = [c for c in rx(f) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
            t = ct.parse(ty_of(f))
            if ini: d[f["name"]] = self.coerce(st, self.ev(st, fr, ini[-1]), t)
            else: d[f["name"]] = self.fresh_val(t, f["name"]) if self.leaf_sort(t) and t[0] != "bitset" else self.default_val(t)
        return Obj(ty[1], d)
    def coerce(self, st, v, ty):
        s = self.leaf_sort(ty)
        if isinstance(v, Loc) and ty[0] != "ref": v = self.load(st, v)
        if s is not None and isinstance(v, T) and v.sort != s and not isinstance(v.sort, tuple): return _conv(v, s)
        return v
    def moved_from(self, st, fr, a, v):
        """std::move source: leave vectors empty"""
        try: l = self.lv(st, fr, a)
        except Unsupported: return
        if isinstance(l, Loc) and isinstance(v, Vec) and v.n is not None:
            self.write(st, l, Vec(num(0), v.e, v.ty))
    def find_ctor(self, rec, ctype, nargs):
        want = ctype.get("qualType", "")
        c = canon_rec(rec)
        best = None
        for f in self.prog.fns.values():
            if f.kind == "CXXConstructorDecl" and f.record is not None and canon_rec(f.record.get("_qual", "")) == c:
                if len(f.params) < nargs: continue
                t = f.type
                if t == want or canon_rec(t) == canon_rec(want): return f
                t2 = f.node.get("type", {}).get("desugaredQualType", t)
                if canon_rec(t2) == canon_rec(ctype.get("desugaredQualType", want)): best = f
        return best
    def run_ctor(self, st, fr, f, ty, args):
        flds = self.fields(ty[1])
        d = {}
        for g in flds:
            t = ct.parse(ty_of(g)); d[g["name"]] = self.default_val(t) if t[0] != "ref" else None
        loc = self.alloc(st, Obj(ty[1], d), "obj")
        argvals = self.bind_args(st, fr, f, args)
        self.call_fn(st, f, argvals, loc)
        return self.read(st, loc)
    def construct_vec(self, st, fr, ty, args):
        if not args: return Vec(num(0), t_const(self.elem0(ty[1])), ty[1])
        if len(args) == 1:
            a = args[0]
            if ct.parse(ty_of(a))[0] in ("vec",): return self.ev(st, fr, a)
            v = self.ev(st, fr, a)
            if isinstance(v, Vec): return v
            r = Vec(self.as_int(v), t_const(self.elem0(ty[1])), ty[1])
            if self.autoview:
                import blas
                r = blas.autovec(self, r)
            return r
        v0 = self.ev(st, fr, args[0]); v1 = self.ev(st, fr, args[1])
        if isinstance(v0, Ptr) and isinstance(v1, Ptr):
            src = self.read(st, v0.base)
            j = fresh("j", "I")
            if type(src.view) is View and v0.off is num(0) and all(x is not None for x in src.view.exts):
                import blas
                if eq(blas.prod(src.view.exts), v1.off) is TRUE: return Vec(v1.off, src.e, ty[1], src.view)      # a copy of the whole addressed matrix
            return Vec(sub(v1.off, v0.off), t_lam(j, self.vec_read(st, src, add(v0.off, j))), ty[1])
        v1 = self.coerce(st, v1, ty[1])
        return Vec(self.as_int(v0), t_const(v1), ty[1])

    # ---------------------------------------------------------------- calls
    def callee(self, n):
        c = rx(n)[0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"): c = rx(c)[0]
        return c
    def bind_args(self, st, fr, f, args):
        vals = []
        for i, p in enumerate(f.params):
            t = ct.parse(ty_of(p))
            if i < len(args): a = args[i]
            else:
                ini = [c for c in rx(p) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if not ini: raise Unsupported("missing argument")
                a = ini[-1]
            if a.get("kind") == "CXXDefaultArgExpr" and not rx(a):
                ini = [c for c in rx(p) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if not ini:
                    d = self.prog.canon.get(f.id)
                    dn = self.prog.decls.get(d)
                    if dn is not None:
                        ps = [c for c in rx(dn) if c.get("kind") == "ParmVarDecl"]
                        if i < len(ps): ini = [c for c in rx(ps[i]) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if not ini: raise Unsupported("default argument")
                a = ini[-1]
            if t[0] == "ref": vals.append(self.lv(st, fr, a))
            else: vals.append(self.coerce(st, self.ev(st, fr, a), t))
        return vals
    def e_CallExpr(self, st, fr, n): return self.rv(st, self.call(st, fr, n))
    def l_CallExpr(self, st, fr, n):
        r = self.call(st, fr, n)
        return r if isinstance(r, (Loc, BitRef)) else self.alloc(st, r)
    def rv(self, st, r):
        if isinstance(r, (Loc, BitRef)): return self.load(st, r)
        return r
    def call(self, st, fr, n):
        c = self.callee(n)
        args = rx(n)[1:]
        if c.get("kind") == "DeclRefExpr":
            d = c["referencedDecl"]
            loc = fr.get(d["id"])
            if loc is not None:     # call through a variable
                f = self.load(st, loc)
                return self.apply(st, fr, f, [self.ev(st, fr, a) for a in args])
            f = self.prog.find_def(d["id"])
            if f is None and c.get("foundReferencedDecl"): f = self.prog.find_def(c["foundReferencedDecl"].get("id"))
            h = self.call_hook(st, fr, d.get("name"), f, args, n)
            if h is not NotImplemented: return h
            if f is not None and f.body is not None:
                return self.call_fn(st, f, self.bind_args(st, fr, f, args), None)
            return self.builtin(st, fr, d.get("name"), args, n)
        if c.get("kind") == "MemberExpr": return self.member_call(st, fr, n)
        v = self.ev(st, fr, c)
        return self.apply(st, fr, v, [self.ev(st, fr, a) for a in args])
    def call_hook(self, st, fr, name, f, args, n): return NotImplemented
    def apply(self, st, fr, f, vals):
        """call a closure / function value on rvalues (references: Loc)"""
        if isinstance(f, Clo):
            if f.py is not None: return f.py(self, st, *vals)
            m = self.lambda_body(f.node, vals)
            nf = Frame(m, None, f.frame)
            nf.vars.update(f.copies)
            for p, v in zip(m["params"], vals):
                t = ct.parse(ty_of(p))
                if isinstance(v, (Loc, BitRef)) and t[0] != "ref": v = self.load(st, v)
                if t[0] == "ref" and isinstance(v, Loc): nf.vars[p["id"]] = v
                else: nf.vars[p["id"]] = self.alloc(st, self.coerce(st, v, t[1] if t[0] == "ref" else t), p.get("name", "p"))
            return self.run_body(st, nf, m["body"], m["ret"])
        if isinstance(f, FnRef):
            g = self.prog.find_def(f.id)
            if g is not None and g.body is not None:
                vv = []
                for p, v in zip(g.params, vals):
                    t = ct.parse(ty_of(p))
                    if t[0] == "ref" and not isinstance(v, Loc): v = self.alloc(st, v)
                    if t[0] != "ref" and isinstance(v, Loc): v = self.load(st, v)
                    vv.append(v)
                return self.call_fn(st, g, vv, None)
        if isinstance(f, Obj):
            # functor object of a record with operator()
            g = self.find_method(f.ty, "operator()", len(vals))
            if g is not None:
                loc = self.alloc(st, f)
                vv = []
                for p, v in zip(g.params, vals):
                    t = ct.parse(ty_of(p))
                    if t[0] == "ref" and not isinstance(v, Loc): v = self.alloc(st, v)
                    vv.append(v)
                return self.call_fn(st, g, vv, loc)
        if isinstance(f, Opaque):
            s = str(f.ty)
            vs = [self.load(st, v) if isinstance(v, Loc) else v for v in vals]
            if "greater" in s: return self.less(st, vs[1], vs[0])
            if "less" in s: return self.less(st, vs[0], vs[1])
            if "plus" in s: return add(vs[0], vs[1])
            if "default_random_engine" in s or "linear_congruential" in s or "minstd_rand" in s:
                g = fresh("random", "I"); st.fact(le(num(1), g)); st.fact(lt(g, num(2 ** 31 - 1))); self.assumed.add("the pseudo-random generator returns values in its documented range"); return g
        raise Unsupported("call of %r" % (f,))
    def less(self, st, a, b):
        if isinstance(a, T) and isinstance(a.sort, tuple): return tm.bv("ult", a, b)
        if isinstance(a, T): return lt(a, b)
        if isinstance(a, Obj) and a.ty == "tuple":
            r = FALSE
            for k in reversed(sorted(a.f)): 
                r = or_(self.less(st, a.f[k], b.f[k]), and_(not_(self.less(st, b.f[k], a.f[k])), r))
            return r
        raise Unsupported("operator< on %r" % (a,))
    def find_method(self, rec, name, nargs=None):
        c = canon_rec(rec)
        for f in self.prog.fns.values():
            if f.name == name and f.record is not None and canon_rec(f.record.get("_qual", "")) == c and (nargs is None or len(f.params) == nargs): return f
        return None
    def lambda_body(self, n, vals):
        rec = rx(n)[0]
        cands = []
        for c in rx(rec):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()": cands.append(c)
            if c.get("kind") == "FunctionTemplateDecl":
                ms = [x for x in rx(c) if x.get("kind") == "CXXMethodDecl"]
                cands.extend(ms[1:] or ms)
        good = []
        for m in cands:
            b = [x for x in rx(m) if x.get("kind") == "CompoundStmt"]
            if b:
                ps = [x for x in rx(m) if x.get("kind") == "ParmVarDecl"]
                if len(ps) == len(vals): good.append((m, ps, b[0]))
        if not good: raise Unsupported("lambda without instantiated body")
        # choose by scalar kind
        def score(g):
            s = 0
            for p, v in zip(g[1], vals):
                t = ct.parse(ty_of(p)); t = t[1] if t[0] == "ref" else t
                if isinstance(v, T):
                    if self.leaf_sort(t) == v.sort: s += 1
            return s
        m, ps, b = max(good, key=score)
        rt = m.get("type", {}).get("qualType", "")
        return {"params": ps, "body": b, "ret": rt}

    def run_body(self, st, fr, body, rettype):
        """execute a body in frame fr, merging all returns into st; returns the value"""
        base = len(st.pc)
        outs = self.exec(st.copy(), fr, body)
        rets = []
        for kind, s, v in outs:
            if kind == "next": rets.append((s, VOID))
            elif kind == "return": rets.append((s, v))
            elif kind == "throw": self.throws.append((s, v))
            else: raise Unsupported("stray " + kind)
        if not rets:
            st.fact(FALSE); return VOID
        s, v = rets[-1]
        for s2, v2 in reversed(rets[:-1]):
            c = and_(*[f for k, f in s2.pc[base:] if k == "b"])
            if isinstance(v, Loc) and isinstance(v2, Loc) and not v == v2:
                v, v2 = self.load(s, v), self.load(s2, v2)
            if isinstance(v, Loc) != isinstance(v2, Loc):
                if isinstance(v, Loc): v = self.load(s, v)
                if isinstance(v2, Loc): v2 = self.load(s2, v2)
            v = v if v is VOID and v2 is VOID else self.merge_val(c, v2, v)
            s = self.merge(s2, s, base)
        # keep only facts (branch conditions of the single path become facts)
        st.store = s.store
        st.pc = st.pc[:base] + tuple(("f", f) if k == "b" and len(rets) == 1 else (k, f) for k, f in s.pc[base:])
        return v
    def merge(self, s1, s2, base):
        """s1 taken under its branch conditions, s2 otherwise"""
        c = and_(*[f for k, f in s1.pc[base:] if k == "b"])
        c2 = and_(*[f for k, f in s2.pc[base:] if k == "b"])
        r = State.__new__(State); r.nb = 0
        r.pc = s1.pc[:base]
        r.store = {}
        for root, v1 in s1.store.items():
            v2 = s2.store.get(root)
            r.store[root] = v1 if v2 is None or v2 is v1 else self.merge_val(c, v1, v2)
        for root, v2 in s2.store.items():
            if root not in r.store: r.store[root] = v2
        for k, f in s1.pc[base:]:
            if k == "f": r.fact(implies(c, f))
        for k, f in s2.pc[base:]:
            if k == "f": r.fact(implies(c2, f))
        tot = or_(c, c2)
        if tot is not TRUE: r.pc = r.pc + (("b", tot),)
        return r

    def call_fn(self, st, f, vals, this):
        if self.calldepth > 60: raise Unsupported("recursion")
        ctr = self.contracts.get(f.qual)
        if ctr is not None and self.calldepth > 0:
            r = ctr(self, st, f, vals, this)
            if r is not NotImplemented: return r
        self.functions.add(f.qual)
        self.calldepth += 1
        old = self.cur
        self.cur = f.qual
        try:
            fr = Frame(f, this)
            for p, v in zip(f.params, vals):
                t = ct.parse(ty_of(p))
                if t[0] == "ref" and isinstance(v, (Loc, BitRef)): fr.vars[p["id"]] = v
                else: fr.vars[p["id"]] = self.alloc(st, v, p.get("name", "p"))
            if f.kind == "CXXConstructorDecl":
                for ini in f.inits: self.ctor_init(st, fr, ini, this, f)
            rt = f.type
            body = f.body if f.body is not None else {"kind": "CompoundStmt", "inner": []}
            v = self.run_body(st, fr, body, rt)
            return v
        finally:
            self.calldepth -= 1; self.cur = old
    def ctor_init(self, st, fr, ini, this, f):
        c = rx(ini)
        if "anyInit" in ini:
            fd = ini["anyInit"]
            e = c[0]
            t = ct.parse(fd.get("type", {}).get("desugaredQualType") or fd.get("type", {}).get("qualType", ""))
            if e.get("kind") == "CXXDefaultInitExpr" and not rx(e):
                dn = self.prog.decls.get(fd["id"])
                for r in self.prog.records.values():
                    for g in rx(r):
                        if g.get("id") == fd["id"]: dn = g
                inits = [x for x in rx(dn or {}) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if not inits: raise Unsupported("default member initialiser")
                e = inits[-1]
            if t[0] == "ref":
                v = self.lv(st, fr, e); o = self.read(st, this); d = dict(o.f); d[fd["name"]] = v
                st.store[this.root] = self._upd(st, st.store[this.root], this.path, Obj(o.ty, d))
            else:
                self.write(st, this.f(fd["name"]), self.coerce(st, self.ev(st, fr, e), t))
        else:
            # delegating / base constructor
            e = c[0]
            e = skipcast(e)
            v = self.ev(st, fr, e)
            o = self.read(st, this)
            if isinstance(v, Obj):
                d = dict(o.f); d.update(v.f)
                self.write(st, this, Obj(o.ty, d))
            elif isinstance(v, Opaque) and "baseInit" in ini and self.fields(ct.parse(ty_of(e))[1] if ct.parse(ty_of(e))[0] == "rec" else "") is None: pass      # base class outside the program
            else: raise Unsupported("base initialiser " + str(ty_of(e)) + str(list(ini)))

    def e_CXXMemberCallExpr(self, st, fr, n): return self.rv(st, self.member_call(st, fr, n))
    def l_CXXMemberCallExpr(self, st, fr, n):
        r = self.member_call(st, fr, n)
        return r if isinstance(r, (Loc, BitRef)) else self.alloc(st, r)
    def member_call(self, st, fr, n):
        me = self.callee(n); args = rx(n)[1:]
        if me.get("kind") != "MemberExpr": raise Unsupported("member call through %s" % me.get("kind"))
        b = rx(me)[0]
        if me.get("isArrow"): base = self.ptr_target(st, self.ev(st, fr, b))
        else: base = self.lv(st, fr, b)
        f = self.prog.find_def(me.get("referencedMemberDecl"))
        h = self.method_hook(st, fr, me.get("name"), f, base, args, n)
        if h is not NotImplemented: return h
        if f is not None and f.body is not None:
            if f.node.get("virtual") and isinstance(base, Loc):
                o = self.read(st, base)
                if isinstance(o, Obj):
                    g = self.find_method(o.ty, f.name, len(f.params))
                    if g is not None: f = g
            return self.call_fn(st, f, self.bind_args(st, fr, f, args), base)
        if isinstance(base, Loc):
            o = self.read(st, base)
            if isinstance(o, Obj) and o.ty not in ("tuple", "opt"):
                g = self.find_method(o.ty, me.get("name"), len(args))
                if g is not None and g.body is not None: return self.call_fn(st, g, self.bind_args(st, fr, g, args), base)
                h = self.externs.get("%s::%s" % (o.ty, me.get("name")))       # contract of a pure virtual method
                if h is not None: return h(self, st, fr, args, n)
        return self.builtin_method(st, fr, me.get("name"), base, args, n)
    def method_hook(self, st, fr, name, f, base, args, n): return NotImplemented
    def e_CXXOperatorCallExpr(self, st, fr, n): return self.rv(st, self.op_call(st, fr, n))
    def l_CXXOperatorCallExpr(self, st, fr, n):
        r = self.op_call(st, fr, n)
        return r if isinstance(r, (Loc, BitRef)) else self.alloc(st, r)
    def op_call(self, st, fr, n):
        c = self.callee(n); args = rx(n)[1:]
        d = c.get("referencedDecl", {})
        name = d.get("name", "")
        f = self.prog.find_def(d.get("id"))
        if name == "operator()":
            o = self.lv(st, fr, args[0])
            ov = self.load(st, o) if isinstance(o, Loc) else o
            if isinstance(ov, Clo):
                return self.apply(st, fr, ov, [self.lv(st, fr, a) if a.get("valueCategory") == "lvalue" else self.ev(st, fr, a) for a in args[1:]])
            if isinstance(ov, Opaque): 
                h = self.method_hook(st, fr, name, f, o, args[1:], n)
                if h is not NotImplemented: return h
                return self.apply(st, fr, ov, [self.ev(st, fr, a) for a in args[1:]])
            h = self.method_hook(st, fr, name, f, o, args[1:], n)
            if h is not NotImplemented: return h
            if f is not None: return self.call_fn(st, f, self.bind_args(st, fr, f, args[1:]), o)
            raise Unsupported("operator() on %r" % (ov,))
        h = self.call_hook(st, fr, name, f, args, n)
        if h is not NotImplemented: return h
        if f is not None and f.body is not None:
            if f.kind == "CXXMethodDecl":
                base = self.lv(st, fr, args[0])
                return self.call_fn(st, f, self.bind_args(st, fr, f, args[1:]), base)
            return self.call_fn(st, f, self.bind_args(st, fr, f, args), None)
        return self.builtin_op(st, fr, name, args, n)

    from builtins_ import (builtin, builtin_method, builtin_op, bit_test, bit_set)

    # ---------------------------------------------------------------- statements
    def exec(self, st, fr, n):
        """-> list of (kind, state, value)"""
        k = n.get("kind")
        m = getattr(self, "s_" + k, None) if k else None
        if m is not None: return m(st, fr, n)
        if k is None or k in ("NullStmt",): return [("next", st, None)]
        # expression statement
        self.ev_or_throw(st, fr, n)
        return [("next", st, None)]
    def ev_or_throw(self, st, fr, n):
        if n.get("valueCategory") == "lvalue": return self.lv(st, fr, n)
        return self.ev(st, fr, n)
    def s_CompoundStmt(self, st, fr, n):
        live = [st]; outs = []
        for c in rx(n):
            nxt = []
            for s in live:
                for o in self.exec(s, fr, c):
                    if o[0] == "next": nxt.append(o[1])
                    else: outs.append(o)
            live = nxt
            if not live: break
        return outs + [("next", s, None) for s in live]
    def s_AttributedStmt(self, st, fr, n): return self.exec(st, fr, rx(n)[-1])
    def s_DeclStmt(self, st, fr, n):
        for d in rx(n): self.declare(st, fr, d)
        return [("next", st, None)]
    def declare(self, st, fr, d):
        k = d.get("kind")
        if k in ("TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "UsingDecl", "UsingDirectiveDecl", "CXXRecordDecl", "EmptyDecl", "EnumDecl", "NamespaceAliasDecl", "FunctionDecl", "UsingEnumDecl"): return
        if k == "VarDecl":
            t = ct.parse(ty_of(d))
            ini = [c for c in rx(d) if c.get("kind") and not c["kind"].endswith(("Attr", "Comment", "Type"))]
            if not ini:
                fr.vars[d["id"]] = self.alloc(st, self.fresh_val(t, d.get("name", "v")) if t[0] != "vec" else self.default_val(t), d.get("name", "v"))
                return
            e = ini[-1]
            if t[0] == "ref":
                l = self.lv(st, fr, e)
                fr.vars[d["id"]] = l if isinstance(l, (Loc, BitRef)) else self.alloc(st, l, d.get("name", "v"))
                return
            v = self.ev(st, fr, e)
            if isinstance(v, BitRef): v = self.load(st, v)
            v = self.coerce(st, v, t)
            fr.vars[d["id"]] = self.alloc(st, v, d.get("name", "v"))
            return
        if k == "DecompositionDecl":
            t = ct.parse(ty_of(d))
            ini = [c for c in rx(d) if c.get("kind") and c["kind"] != "BindingDecl" and not c["kind"].endswith("Attr")]
            e = ini[0] if ini else None
            if t[0] == "ref": l = self.lv(st, fr, e)
            else: l = self.alloc(st, self.ev(st, fr, e), "decomp")
            v = self.read(st, l)
            bs = [c for c in rx(d) if c.get("kind") == "BindingDecl"]
            fr.vars[d["id"]] = l
            names = list(v.f) if isinstance(v, Obj) else None
            for i, b in enumerate(bs):
                if isinstance(v, Obj):
                    x = v.f[names[i]]
                    bl = x if isinstance(x, Loc) else l.f(names[i])
                else: bl = l.i(num(i))
                fr.vars[b["id"]] = bl
                for vd in rx(b):
                    if vd.get("kind") == "VarDecl": fr.vars[vd["id"]] = bl
            return
        raise Unsupported("declaration %s" % k)
    def s_ReturnStmt(self, st, fr, n):
        c = rx(n)
        if not c: return [("return", st, VOID)]
        rt = None
        f = fr.fn
        rtype = f.type if hasattr(f, "type") else f.get("ret", "")
        isref = bool(re.search(r"&\s*\(", rtype.split(")")[0] + ")")) or re.match(r"^[^(]*&\s*\(", rtype) is not None or re.search(r"-> .*&$", rtype) is not None
        if isref and c[0].get("valueCategory") == "lvalue": return [("return", st, self.lv(st, fr, c[0]))]
        return [("return", st, self.ev(st, fr, c[0]))]
    def s_CXXThrowExpr(self, st, fr, n): return [("throw", st, "throw")]
    def s_ExprWithCleanups(self, st, fr, n):
        c = rx(n)[0]
        if c.get("kind") == "CXXThrowExpr": return [("throw", st, "throw")]
        self.ev_or_throw(st, fr, c); return [("next", st, None)]
    def s_BreakStmt(self, st, fr, n): return [("break", st, None)]
    def s_ContinueStmt(self, st, fr, n): return [("continue", st, None)]
    def s_CXXTryStmt(self, st, fr, n): return self.exec(st, fr, rx(n)[0])
    def s_OMPParallelForDirective(self, st, fr, n): return self.omp(st, fr, n)
    s_OMPParallelDirective = s_OMPForDirective = s_OMPCriticalDirective = s_OMPParallelForDirective
    def omp(self, st, fr, n):
        c = rx(n)[-1]
        while c.get("kind") in ("CapturedStmt", "CapturedDecl"): c = rx(c)[0]
        return self.exec(st, fr, c)
    def s_IfStmt(self, st, fr, n):
        ch = rx(n)
        i = 0
        if n.get("hasInit"):
            o = self.exec(st, fr, ch[0]); st = o[0][1]; i = 1
        if n.get("hasVar"):
            o = self.exec(st, fr, ch[i]); st = o[0][1]; i += 1
        cond, then = ch[i], ch[i + 1]
        els = ch[i + 2] if n.get("hasElse") else None
        if n.get("isConstexpr"):
            c = cond
            if "value" in c: cv = c["value"] in (True, "true", "1", 1)
            else:
                t = self.as_bool(self.ev(st, fr, c))
                cv = t is TRUE
                if t not in (TRUE, FALSE): raise Unsupported("if constexpr")
            if cv: return self.exec(st, fr, then)
            return self.exec(st, fr, els) if els else [("next", st, None)]
        c = self.as_bool(self.ev(st, fr, cond))
        if c not in (TRUE, FALSE) and not self.dry:
            if self.known(st, c): c = TRUE
            elif self.known(st, not_(c)): c = FALSE
        elif self.dry and self.dead is not None and c not in (TRUE, FALSE) and self.dead(c): c = FALSE
        if c is TRUE: return self.exec(st, fr, then)
        if c is FALSE: return self.exec(st, fr, els) if els else [("next", st, None)]
        base = len(st.pc)
        s1 = st.copy(); s1.branch(c)
        s2 = st.copy(); s2.branch(not_(c))
        o1 = self.exec(s1, fr, then)
        o2 = self.exec(s2, fr, els) if els else [("next", s2, None)]
        outs = [o for o in o1 + o2 if o[0] != "next"]
        n1 = [o[1] for o in o1 if o[0] == "next"]; n2 = [o[1] for o in o2 if o[0] == "next"]
        return outs + [("next", s, None) for s in self.merge_states(n1 + n2, base)]
    def merge_states(self, ss, base):
        if len(ss) <= 1: return ss
        acc = ss[-1]; keep = []
        for s in reversed(ss[:-1]):
            try: acc = self.merge(s, acc, base)
            except Unsupported: keep.append(s)
        return keep + [acc]
    def s_SwitchStmt(self, st, fr, n):
        ch = rx(n)
        v = self.as_int(self.ev(st, fr, ch[-2]))
        body = ch[-1]
        stmts = rx(body)
        # flatten case labels
        flat = []
        for s in stmts:
            labels = []
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt": labels.append(rx(s)[0])
                else: labels.append(None)
                s = rx(s)[-1]
            flat.append((labels, s))
        base = len(st.pc)
        outs = []; nexts = []
        allc = []
        for labels, _ in flat:
            for l in labels:
                if l is not None: allc.append(eq(v, self.as_int(self.ev(st, fr, l))))
        starts = []
        for idx, (labels, _) in enumerate(flat):
            for l in labels:
                c = and_(*[not_(x) for x in allc]) if l is None else eq(v, self.as_int(self.ev(st, fr, l)))
                starts.append((idx, c))
        if not any(None in labels for labels, _ in flat): starts.append((len(flat), and_(*[not_(x) for x in allc])))
        for idx, c in starts:
            if c is FALSE or self.known(st, not_(c)): continue
            s = st.copy(); s.branch(c)
            live = [s]
            for _, stmt in flat[idx:]:
                nl = []
                for x in live:
                    for o in self.exec(x, fr, stmt):
                        if o[0] == "next": nl.append(o[1])
                        elif o[0] == "break": nexts.append(o[1])
                        else: outs.append(o)
                live = nl
            nexts.extend(live)
        return outs + [("next", s, None) for s in self.merge_states(nexts, base)]

    # ---------------------------------------------------------------- loops
    def s_ForStmt(self, st, fr, n):
        ch = rx(n)   # init, condvar, cond, inc, body
        init, _, cond, inc, body = ch
        if init.get("kind"):
            outs = self.exec(st, fr, init); st = outs[0][1]
        return self.loop(st, fr, n, (lambda s: self.as_bool(self.ev(s, fr, cond))) if cond.get("kind") else (lambda s: TRUE),
                         (lambda s: self.ev_or_throw(s, fr, inc)) if inc.get("kind") else (lambda s: None),
                         lambda s: self.exec(s, fr, body))
    def s_WhileStmt(self, st, fr, n):
        ch = rx(n); cond, body = ch[-2], ch[-1]
        return self.loop(st, fr, n, lambda s: self.as_bool(self.ev(s, fr, cond)), lambda s: None, lambda s: self.exec(s, fr, body))
    def s_DoStmt(self, st, fr, n):
        body, cond = rx(n)
        outs = []; live = []
        for o in self.exec(st, fr, body):
            if o[0] in ("next", "continue"): live.append(o[1])
            elif o[0] == "break": outs.append(("next", o[1], None))
            else: outs.append(o)
        if live:
            base = 0
            for s in live:
                outs += self.loop(s, fr, n, lambda s: self.as_bool(self.ev(s, fr, cond)), lambda s: None, lambda s: self.exec(s, fr, body))
        return outs
    def s_CXXForRangeStmt(self, st, fr, n):
        ch = rx(n)   # init, range, begin, end, cond, inc, loopvar, body
        for c in ch[:4]:
            if c.get("kind"): st = self.exec(st, fr, c)[0][1]
        cond, inc, lvar, body = ch[4:8]
        def run(s):
            outs = []
            for o in self.exec(s, fr, lvar):
                outs += self.exec(o[1], fr, body)
            return outs
        return self.loop(st, fr, n, lambda s: self.as_bool(self.ev(s, fr, cond)), lambda s: self.ev_or_throw(s, fr, inc), run)

    def loop(self, st, fr, node, cond, inc, body):
        # constant trip count (bounded by small constants): unroll
        u = self.try_unroll(st, cond, inc, body)
        if u is not None: return u
        import loops
        if not self.autoview: return loops.run(self, st, fr, node, cond, inc, body)
        import blas
        while True:
            lvl = len(self.loopstates); keep = (len(self.obls), len(self.throws), len(self.loopinfo), list(self.loopstack), self.dry, self.quiet, self.in_summ, self.wlog)
            self.loopstates.append(st)
            try: return loops.run(self, st.copy(), fr, node, cond, inc, body)
            except blas.ReView as r:
                if r.level != lvl: raise
                del self.obls[keep[0]:]; del self.throws[keep[1]:]; del self.loopinfo[keep[2]:]
                self.loopstack[:] = keep[3]
                self.dry, self.quiet, self.in_summ, self.wlog = keep[4:]
                del self.loopstates[lvl:]
                blas.on_review(self, st, r); continue
            finally: del self.loopstates[lvl:]
    unroll_max = 8
    def try_unroll(self, st, cond, inc, body):
        """fully unroll when the condition stays decided syntactically"""
        if self.dry: return None
        s = st.copy()
        c = cond(s)
        if c is FALSE:
            return [("next", s, None)]
        if c is not TRUE: return None
        # speculative unroll
        q = self.quiet; nob = len(self.obls); nth = len(self.throws)
        outs = []; live = s; 
        try:
            for it in range(self.unroll_max + 1):
                c = cond(live)
                if c is FALSE: return outs + [("next", live, None)]
                if c is not TRUE or it == self.unroll_max: break
                os = body(live); nl = []
                for o in os:
                    if o[0] in ("next", "continue"): nl.append(o[1])
                    elif o[0] == "break": outs.append(("next", o[1], None))
                    else: outs.append(o)
                if not nl: return outs
                if len(nl) > 1:
                    nl = self.merge_states(nl, len(st.pc))
                    if len(nl) > 1: break
                live = nl[0]
                inc(live)
        except Unsupported: pass
        del self.obls[nob:]; del self.throws[nth:]
        return None

def _sk(hy, f):
    h, g = smt.skolem(f)
    return list(hy) + h, g
