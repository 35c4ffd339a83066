from orb import *
NOTE = "both transforms for all dimensions, tensors, coefficient matrices and leading dimensions: every output element equals the full contraction and nothing else is written; the matrix product is an assumed contract of blas::gemm"
TU = "orb"
HARNESS_SRC = ["$REPO/src/macis/transform.cxx"]
HARNESS_LIBS = ["-lblaspp", "-lopenblas"]
ASSUME = ["floating-point values are treated as mathematical reals", "input and output buffers do not overlap"]
def jobs(V): return [("two-index", lambda: two(V)), ("four-index", lambda: four(V))]
def two(V):
    C = V.ctx("two_index_transform"); C.ex.autoview = True
    no, nn = dims(C, "norb_old", "norb_new"); lx, lc, ly = ld(C, "LDX", no), ld(C, "LDC", no), ld(C, "LDY", nn)
    x, X0, _ = mat(C, "X", lx); c, C0, _ = mat(C, "C", lc); y, Y0, yl = mat(C, "Y", ly)
    C.call(F(V, "two_index_transform"), [no, nn, x, lx, c, lc, y, ly])
    Y1 = C.ex.read(C.st, yl).e; p, q, i, j = [iv(k) for k in "pqij"]
    inb = and_(rng(I0, p, nn), rng(I0, q, nn))
    C.ensure("every element is the full double sum", implies(inb, eq(sel(Y1, p, q), ssum([(i, I0, no), (j, I0, no)], mul(mul(sel(C0, i, p), sel(X0, i, j)), sel(C0, j, q))))))
    C.ensure("nothing outside the block is written", implies(not_(inb), eq(sel(Y1, p, q), sel(Y0, p, q)))); V.done(C)
def four(V):
    C = V.ctx("four_index_transform"); C.ex.autoview = True
    no, nn = dims(C, "norb_old", "norb_new"); lx, lc, ly = ld(C, "LDX", no), ld(C, "LDC", no), ld(C, "LDY", nn)
    x, X0, _ = ten4(C, "X", lx); c, C0, _ = mat(C, "C", lc); y, Y0, yl = ten4(C, "Y", ly)
    C.call(F(V, "four_index_transform"), [no, nn, x, lx, c, lc, y, ly])
    Y1 = C.ex.read(C.st, yl).e; P = [iv(k) for k in "pqrs"]; S = [iv(k) for k in "ijkl"]
    inb = and_(*[rng(I0, p, nn) for p in P])
    body = sel(X0, *S)
    for s, p in zip(S, P): body = mul(body, sel(C0, s, p))
    C.ensure("every element is the full fourfold sum", implies(inb, eq(sel(Y1, *P), ssum([(s, I0, no) for s in S], body))))
    C.ensure("nothing outside the block is written", implies(not_(inb), eq(sel(Y1, *P), sel(Y0, *P)))); V.done(C)
