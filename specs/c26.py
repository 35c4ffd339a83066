from orb import *
TU = "fcid"
HARNESS_SRC = ["$REPO/src/macis/fcidump.cxx"]
HARNESS_LIBS = ["-lspdlog", "-lfmt"]
HARNESS_FLAGS = ["-std=c++17", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"]
NOTE = "write_rdms_binary followed by read_rdms_binary for every orbital count, every pair of leading dimensions of the writer and of the reader: both functions run against one ghost file (the sequence of blocks written), every read must ask for the block that was written, and the values that arrive equal the values that were given. Reading a file written for another orbital count only returns by an exception."
ASSUME = ["std::ofstream / std::ifstream: what is read from a file is what was written to it, in order (every write and read succeeds once the file is open; a file that does not open is reported by the stream)", "the fourth power of the orbital count times 8 fits size_t, the orbital count fits int", "leading dimensions are at least the orbital count"]
class File:
    """ghost file: blocks (bytes, value of an int | contents, view) in order; one position for reading"""
    def __init__(s, C):
        s.blocks = []; s.pos = None; s.C = C; ex = C.ex; s.ok = {}
        def open_(ex, st, fr, args, way):
            s.ok[way] = fresh("open", "B")
            if way == "o": s.blocks = []
            else: s.pos = 0
            return X.Opaque("fstream." + way)
        ex.externs = ({"fstream.open": open_, "fstream.o.write": s.write, "fstream.i.read": s.read, **{"fstream.%s.%s" % (w, m): s.quiet(w, m) for w in "oi" for m in ("bool", "good", "is_open", "fail", "close", "flush")}})
    def quiet(s, w, m):
        return lambda ex, st, fr, args, n: not_(s.ok[w]) if m == "fail" else s.ok[w] if m in ("bool", "good", "is_open") else X.VOID
    def vals(s, ex, st, fr, args):
        if ex.dry: raise Unsupported("file access in a loop")
        p, n = ex.ev(st, fr, args[0]), ex.as_int(ex.ev(st, fr, args[1]))
        if not isinstance(p, Ptr) or p.base is None: raise Unsupported("file access through an unknown pointer")
        return p, n, ex.read(st, p.base)
    def write(s, ex, st, fr, args, n):
        p, b, v = s.vals(ex, st, fr, args)
        if isinstance(v, T) and p.off is None: ex.oblige(st, "write: the bytes of the number", eq(b, num(4))); s.blocks.append((b, v, None))
        elif isinstance(v, Vec) and p.off is I0 and ex.leaf_sort(v.ty) == "R":
            ex.oblige(st, "write: inside the buffer", and_(le(I0, b), le(b, mul(num(8), v.n)))); s.blocks.append((b, v.e, v.view))
        else: raise Unsupported("write of part of a buffer")
        return X.VOID
    def read(s, ex, st, fr, args, n):
        p, b, v = s.vals(ex, st, fr, args)
        if s.pos >= len(s.blocks): ex.oblige(st, "read: there is something left in the file", FALSE); raise Unsupported("read past the end")
        wb, w, vw = s.blocks[s.pos]; s.pos += 1; one = isinstance(v, T) and p.off is None
        ex.oblige(st, "read: asks for the block that was written (same size)", eq(b, wb)); ex.oblige(st, "read: asks for the block that was written (same kind)", TRUE if one == (vw is None) else FALSE)
        if one: ex.write(st, p.base, w if vw is None else fresh("read", v.sort)); return X.VOID
        if not (isinstance(v, Vec) and p.off is I0 and ex.leaf_sort(v.ty) == "R" and isinstance(vw, X.View)): raise Unsupported("read into part of a buffer: %r %r %r" % (type(v), p.off, vw))
        ex.oblige(st, "read: inside the buffer", le(b, mul(num(8), v.n)))
        k = next((k for k in range(1, len(vw.exts) + 1) if ex.known(st, eq(b, mul(num(8), prod(vw.exts[:k]))), 2000)), None)
        if k is None: raise Unsupported("read of an incomplete block")
        xs = [iv("x%d" % i) for i in range(len(vw.exts))]; s_ = "R"
        for _ in xs: s_ = tm.asort(s_)
        a = fresh("read", s_); st.fact(forall(xs, implies(and_(*[rng(I0, x, e) for x, e in zip(xs, vw.exts)], *[eq(x, I0) for x in xs[k:]]), eq(sel(a, *xs), sel(w, *xs))), [[sel(a, *xs)]]))
        ex.write(st, p.base, Vec(v.n, a, v.ty, vw)); return X.VOID
def prod(l):
    r = I1
    for x in l: r = mul(r, x)
    return r
def both(V, same):
    C = V.ctx("round trip" if same else "another orbital count"); C.ex.autoview = True; File(C); n = iv("norb"); m = n if same else iv("reader_norb"); C.assume(ge(n, I0), ge(m, I0), lt(n, num(2 ** 15)), lt(m, num(2 ** 15)))
    if not same: C.assume(ne(n, m))
    l1, l2, k1, k2 = ld(C, "LDD1", n), ld(C, "LDD2", n), ld(C, "reader_LDD1", m), ld(C, "reader_LDD2", m); D1, D2, E1, E2 = mat(C, "D1", l1), ten4(C, "D2", l2), mat(C, "E1", k1), ten4(C, "E2", k2); name = X.Opaque("string")
    C.call(F(V, "write_rdms_binary"), [name, n, D1[0], l1, D2[0], l2]); i, j, k, l = (iv(x) for x in "ijkl"); R2, R4 = [rng(I0, x, n) for x in (i, j)], [rng(I0, x, n) for x in (i, j, k, l)]; at = lambda b: C.ex.read(C.st, b[2]).e
    C.ensure("writing leaves the matrices as they are", and_(eq(sel(at(D1), i, j), sel(D1[1], i, j)), eq(sel(at(D2), i, j, k, l), sel(D2[1], i, j, k, l))))
    C.call(F(V, "read_rdms_binary"), [name, m, E1[0], k1, E2[0], k2])
    if not same: C.ensure("reading only returns by an exception", FALSE)
    else:
        C.ensure("nothing else is written", and_(implies(not_(and_(*R2)), eq(sel(at(E1), i, j), sel(E1[1], i, j))), implies(not_(and_(*R4)), eq(sel(at(E2), i, j, k, l), sel(E2[1], i, j, k, l)))))
        C.ensure("one-particle density matrix", implies(and_(*R2), eq(sel(at(E1), i, j), sel(D1[1], i, j)))); C.ensure("two-particle density matrix", implies(and_(*R4), eq(sel(at(E2), i, j, k, l), sel(D2[1], i, j, k, l))))
    V.done(C)
def jobs(V): return [("round trip", lambda: both(V, True)), ("another orbital count", lambda: both(V, False))]
