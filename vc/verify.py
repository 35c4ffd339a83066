"""Runs the contracts of one property against the AST of the current tree."""
import sys, os, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs"))
import astload, smt, exec as X, builtins_, term as tm
from spec import Ctx, FALSE
A = ", std::allocator<double>"
class V:
    CSR = "sparsexx::csr_matrix<double, int, std::allocator<double>>"
    CSC = "sparsexx::csc_matrix<double, int, std::allocator<double>>"
    COO = "sparsexx::coo_matrix<double, int, std::allocator<double>>"
    def __init__(self, prog): self.prog = prog; self.ctxs = []; self.unsupported = []; self.progs = {}
    def ctx(self, name, prog=None, **kw):
        C = Ctx(prog or self.prog, **kw); C.name = name; C.t0 = time.time(); self.ctxs.append(C); return C
    def fns(self, qual, prog=None): return (prog or self.prog).byqual.get(qual.replace(", ", ","), [])
    def fn(self, qual, pred=None, prog=None):
        fs = [f for f in self.fns(qual, prog) if f.body is not None and (pred is None or pred(f))]
        if not fs: raise X.Unsupported("function %s not found" % qual)
        return fs[0]
    def done(self, C):
        r = smt.prove(C.pre + C.ex.axioms, FALSE, 1500)
        C.vacuous = r.status == "proved"
        C.time = time.time() - C.t0
