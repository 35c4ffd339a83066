from orb import *
NOTE = "all Fock builds, both generalised-Fock drivers, the active-space Hamiltonian, orbital energies and both energies, for every orbital partition, integrals and leading dimensions; loops are replaced by their exact effect; the matrix product is an assumed contract of blas::gemm"
TU = "orb"
HARNESS_SRC = ["$REPO/src/macis/fock_matrices.cxx", "$REPO/src/macis/orbital_energies.cxx"]
HARNESS_LIBS = ["-lblaspp", "-lopenblas"]
ASSUME = ["floating-point values are treated as mathematical reals", "input and output buffers do not overlap"]
def jobs(V):
    return [(k, lambda f=f: f(V)) for k, f in (("energies", energies), ("inactive Fock", ifock), ("active Fock", afock), ("Q", aux), ("active blocks", sub_), ("orbital energies", oen), ("generalised Fock", gfock), ("generalised Fock from integrals", gfock1), ("generalised Fock from bare integrals", gfock2), ("active-space Hamiltonian", aham))]
def fi_elem(T, V, ni, p, q):
    i = iv("i")
    return add(sel(T, p, q), sum_(i, I0, ni, sub(mul(R(2), sel(V, p, q, i, i)), sel(V, p, i, i, q))))
def frame(C, loc, M0, inb, want, idx):
    M1 = C.ex.read(C.st, loc).e
    C.ensure("every element of the block equals its defining sum", implies(inb, eq(sel(M1, *idx), want)))
    C.ensure("nothing outside the block is written", implies(not_(inb), eq(sel(M1, *idx), sel(M0, *idx))))
def setup(C):
    no, ni, na = dims(C, "norb", "ninact", "nact"); C.assume(le(add(ni, na), no))
    return no, ni, na
def energies(V):
    C = V.ctx("inactive_energy"); no, ni, na = setup(C)
    lt_, lf = ld(C, "LDT", no), ld(C, "LDF", no)
    t, T0, _ = mat(C, "T", lt_); f, F0, _ = mat(C, "Fi", lf)
    r = C.call(F(V, "inactive_energy"), [named(C, "NumInactive", ni), t, lt_, f, lf])
    i = iv("i")
    C.ensure("sum of core and Fock diagonals", eq(r, sum_(i, I0, ni, add(sel(T0, i, i), sel(F0, i, i))))); V.done(C)
    C = V.ctx("energy_from_generalized_fock"); no, ni, na = setup(C)
    lt_, lf, l1 = ld(C, "LDT", no), ld(C, "LDF", no), ld(C, "LDD", na)
    t, T0, _ = mat(C, "T", lt_); f, F0, _ = mat(C, "F", lf); d, D0, _ = mat(C, "D", l1)
    r = C.call(F(V, "energy_from_generalized_fock"), [named(C, "NumInactive", ni), named(C, "NumActive", na), t, lt_, d, l1, f, lf])
    i, x, y, p = iv("i"), iv("x"), iv("y"), iv("p")
    w = add(add(sum_(i, I0, ni, mul(R(2), sel(T0, i, i))), ssum([(x, I0, na), (y, I0, na)], mul(sel(D0, x, y), sel(T0, add(x, ni), add(y, ni))))), sum_(p, I0, add(na, ni), sel(F0, p, p)))
    C.ensure("half of the trace", eq(mul(R(2), r), w)); V.done(C)
def ifock(V):
    C = V.ctx("inactive_fock_matrix"); no, ni, na = setup(C)
    lt_, lv, lf = ld(C, "LDT", no), ld(C, "LDV", no), ld(C, "LDF", no)
    t, T0, _ = mat(C, "T", lt_); v, V0, _ = ten4(C, "V", lv); f, F0, fl = mat(C, "Fi", lf)
    C.call(F(V, "inactive_fock_matrix"), [named(C, "NumOrbital", no), named(C, "NumInactive", ni), t, lt_, v, lv, f, lf])
    p, q = iv("p"), iv("q")
    frame(C, fl, F0, and_(rng(I0, p, no), rng(I0, q, no)), fi_elem(T0, V0, ni, p, q), (p, q)); V.done(C)
def afock(V):
    C = V.ctx("active_fock_matrix"); no, ni, na = setup(C)
    ld_, lv, lf = ld(C, "LDD", na), ld(C, "LDV", no), ld(C, "LDF", no)
    d, D0, _ = mat(C, "D", ld_); v, V0, _ = ten4(C, "V", lv); f, F0, fl = mat(C, "Fa", lf)
    C.call(F(V, "active_fock_matrix"), [named(C, "NumOrbital", no), named(C, "NumInactive", ni), named(C, "NumActive", na), v, lv, d, ld_, f, lf])
    p, q = iv("p"), iv("q")
    frame(C, fl, F0, and_(rng(I0, p, no), rng(I0, q, no)), fa_elem(D0, V0, ni, na, p, q), (p, q)); V.done(C)
def fa_elem(D, V, ni, na, p, q):
    x, y = iv("v"), iv("w"); xo, yo = add(x, ni), add(y, ni)
    return ssum([(x, I0, na), (y, I0, na)], mul(sel(D, x, y), sub(sel(V, p, q, xo, yo), mul(num("1/2", "R") if False else tm.num(__import__("fractions").Fraction(1, 2), "R"), sel(V, p, yo, xo, q)))))
def q_elem(D2, V, ni, na, v, p):
    w, x, y = iv("w"), iv("x"), iv("y")
    return mul(R(2), ssum([(w, I0, na), (x, I0, na), (y, I0, na)], mul(sel(D2, v, w, x, y), sel(V, p, add(w, ni), add(x, ni), add(y, ni)))))
def aux(V):
    C = V.ctx("aux_q_matrix"); no, ni, na = setup(C)
    ld_, lv, lq = ld(C, "LDD", na), ld(C, "LDV", no), ld(C, "LDQ", na)
    d, D0, _ = ten4(C, "D2", ld_); v, V0, _ = ten4(C, "V", lv); f, F0, fl = mat(C, "Q", lq)
    C.call(F(V, "aux_q_matrix"), [named(C, "NumActive", na), named(C, "NumOrbital", no), named(C, "NumInactive", ni), v, lv, d, ld_, f, lq])
    p, q = iv("v"), iv("p")
    frame(C, fl, F0, and_(rng(I0, p, na), rng(I0, q, no)), q_elem(D0, V0, ni, na, p, q), (p, q)); V.done(C)
def sub_(V):
    C = V.ctx("active_submatrix_1body"); no, ni, na = setup(C)
    la, ls = ld(C, "LDAF", no), ld(C, "LDAS", na)
    a, A0, _ = mat(C, "A", la); s, S0, sl = mat(C, "S", ls)
    C.call(F(V, "active_submatrix_1body"), [named(C, "NumActive", na), named(C, "NumInactive", ni), a, la, s, ls])
    p, q = iv("p"), iv("q")
    frame(C, sl, S0, and_(rng(I0, p, na), rng(I0, q, na)), sel(A0, add(p, ni), add(q, ni)), (p, q)); V.done(C)
    C = V.ctx("active_subtensor_2body"); no, ni, na = setup(C)
    la, ls = ld(C, "LDAF", no), ld(C, "LDAS", na)
    a, A0, _ = ten4(C, "A", la); s, S0, sl = ten4(C, "S", ls)
    C.call(F(V, "active_subtensor_2body"), [named(C, "NumActive", na), named(C, "NumInactive", ni), a, la, s, ls])
    ix = [iv(k) for k in "pqrs"]
    frame(C, sl, S0, and_(*[rng(I0, p, na) for p in ix]), sel(A0, *[add(p, ni) for p in ix]), ix); V.done(C)
def oen(V):
    C = V.ctx("canonical_orbital_energies"); no, ni, na = setup(C)
    lt_, lv = ld(C, "LDT", no), ld(C, "LDV", no)
    t, T0, _ = mat(C, "T", lt_); v, V0, _ = ten4(C, "V", lv)
    el = C.alloc(Vec(None, fresh("eps", asort("R")), REAL), "eps"); E0 = C.ex.read(C.st, el).e
    C.call(F(V, "canonical_orbital_energies"), [named(C, "NumOrbital", no), named(C, "NumInactive", ni), t, lt_, v, lv, Ptr(el, I0)])
    p = iv("p")
    frame(C, el, E0, rng(I0, p, no), fi_elem(T0, V0, ni, p, p), (p,)); V.done(C)

def F_elem(ni, na, fi, fa, d, q, r, p):
    """row r of the generalised Fock matrix, column p; fi/fa/d/q: element functions"""
    y = iv("y")
    return ite(lt(r, ni), mul(R(2), add(fi(p, r), fa(p, r))), add(sum_(y, I0, na, mul(fi(p, add(y, ni)), d(y, sub(r, ni)))), q(sub(r, ni), p)))
def gframe(C, fl, F0, no, ni, na, fi, fa, d, q):
    r, p = iv("r"), iv("p")
    frame(C, fl, F0, and_(rng(I0, r, add(ni, na)), rng(I0, p, no)), F_elem(ni, na, fi, fa, d, q, r, p), (r, p))
def el(M): return lambda a, b: sel(M, a, b)
def gfock(V):
    C = V.ctx("generalized_fock_matrix"); no, ni, na = setup(C); C.ex.autoview = True
    li, la, l1, lq, lf = ld(C, "LDFi", no), ld(C, "LDFa", no), ld(C, "LDD", na), ld(C, "LDQ", na), ld(C, "LDF", no)
    fi, A, _ = mat(C, "Fi", li); fa, B, _ = mat(C, "Fa", la); d, D, _ = mat(C, "D", l1); q, Q, _ = mat(C, "Q", lq); f, F0, fl = mat(C, "F", lf)
    C.call(F(V, "generalized_fock_matrix"), [named(C, "NumOrbital", no), named(C, "NumInactive", ni), named(C, "NumActive", na), fi, li, fa, la, d, l1, q, lq, f, lf])
    gframe(C, fl, F0, no, ni, na, el(A), el(B), el(D), el(Q)); V.done(C)
def gfock1(V):
    C = V.ctx("generalized_fock_matrix_comp_mat1"); no, ni, na = setup(C); C.ex.autoview = True
    li, lv, l1, l2, lf = ld(C, "LDFi", no), ld(C, "LDV", no), ld(C, "LDD1", na), ld(C, "LDD2", na), ld(C, "LDF", no)
    fi, A, _ = mat(C, "Fi", li); v, V0, _ = ten4(C, "V", lv); d, D, _ = mat(C, "D", l1); d2, D2, _ = ten4(C, "D2", l2); f, F0, fl = mat(C, "F", lf)
    C.call(F(V, "generalized_fock_matrix_comp_mat1"), [named(C, "NumOrbital", no), named(C, "NumInactive", ni), named(C, "NumActive", na), fi, li, v, lv, d, l1, d2, l2, f, lf])
    gframe(C, fl, F0, no, ni, na, el(A), lambda p, q: fa_elem(D, V0, ni, na, p, q), el(D), lambda a, p: q_elem(D2, V0, ni, na, a, p)); V.done(C)
def gfock2(V):
    C = V.ctx("generalized_fock_matrix_comp_mat2"); no, ni, na = setup(C); C.ex.autoview = True
    lt_, lv, l1, l2, lf = ld(C, "LDT", no), ld(C, "LDV", no), ld(C, "LDD1", na), ld(C, "LDD2", na), ld(C, "LDF", no)
    t, T0, _ = mat(C, "T", lt_); v, V0, _ = ten4(C, "V", lv); d, D, _ = mat(C, "D", l1); d2, D2, _ = ten4(C, "D2", l2); f, F0, fl = mat(C, "F", lf)
    C.call(F(V, "generalized_fock_matrix_comp_mat2"), [named(C, "NumOrbital", no), named(C, "NumInactive", ni), named(C, "NumActive", na), t, lt_, v, lv, d, l1, d2, l2, f, lf])
    gframe(C, fl, F0, no, ni, na, lambda p, q: fi_elem(T0, V0, ni, p, q), lambda p, q: fa_elem(D, V0, ni, na, p, q), el(D), lambda a, p: q_elem(D2, V0, ni, na, a, p)); V.done(C)
def aham(V):
    C = V.ctx("active_hamiltonian"); no, ni, na = setup(C)
    lt_, lv, lf, la, lva = ld(C, "LDT", no), ld(C, "LDV", no), ld(C, "LDFi", no), ld(C, "LDTA", na), ld(C, "LDVA", na)
    t, T0, _ = mat(C, "T", lt_); v, V0, _ = ten4(C, "V", lv); f, F0, fl = mat(C, "Fi", lf); a, A0, al = mat(C, "TA", la); w, W0, wl = ten4(C, "VA", lva)
    C.call(F(V, "active_hamiltonian"), [named(C, "NumOrbital", no), named(C, "NumActive", na), named(C, "NumInactive", ni), t, lt_, v, lv, f, lf, a, la, w, lva])
    p, q, x = iv("p"), iv("q"), [iv(k) for k in "pqrs"]
    frame(C, fl, F0, and_(rng(I0, p, no), rng(I0, q, no)), fi_elem(T0, V0, ni, p, q), (p, q))
    frame(C, al, A0, and_(rng(I0, p, na), rng(I0, q, na)), fi_elem(T0, V0, ni, add(p, ni), add(q, ni)), (p, q))
    frame(C, wl, W0, and_(*[rng(I0, k, na) for k in x]), sel(V0, *[add(k, ni) for k in x]), x); V.done(C)
