"""shared helpers for the orbital-space algebra (C18-C21)"""
from spec import *
def named(C, name, t): return Obj(name, {"value_": t})
def dims(C, *names):
    out = []
    for n in names:
        x = iv(n); C.assume(ge(x, I0)); out.append(x)
    return out
def ld(C, name, lo):
    x = iv(name); C.assume(ge(x, lo), ge(x, I1)); return x
def mat(C, name, LD): return buffer(C, name, [LD, None])
def ten4(C, name, LD): return buffer(C, name, [LD, LD, LD, None])
def R(x): return num(x, "R") if not isinstance(x, T) else x
def ssum(ranges, body):
    for v, lo, hi in reversed(ranges): body = sum_(v, lo, hi, body)
    return body
def F(V, name, pred=lambda f: True):
    return V.fn("macis::" + name, pred)
def segbuf(C, name, segs):
    """buffer holding consecutive blocks; returns pointer, element function (block, fastest, slow) over the contents, location"""
    e = nested(name, 3)
    l = C.alloc(Vec(None, e, REAL, X.SegView(segs)), name)
    return Ptr(l, I0), e, l
def split3(C):
    ni, na, nv = dims(C, "ninact", "nact", "nvirt")
    return ni, na, nv, add(add(ni, na), nv), [[nv, ni], [nv, na], [na, ni]]
def offs(ni, na): return [(add(ni, na), I0), (add(ni, na), ni), (ni, I0)]      # row and column offsets of the blocks vi, va, ai
def N3(C, ni, na, nv): return [named(C, "NumInactive", ni), named(C, "NumActive", na), named(C, "NumVirtual", nv)]
