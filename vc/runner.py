"""runner.py <id> <tier> <out.json>: prove the contracts of one property"""
import sys, os, json, time, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from verify import *
import z3
TUS = {"orb": ("tu/orb.cpp", ["macis"], True), "triplet": ("tu/triplet.cpp", ["sparsexx"], False), "sparse": ("tu/sparse.cpp", ["sparsexx"], False), "dist": ("tu/dist.cpp", ["sparsexx"], True), "fcid": ("tu/fcid.cpp", ["macis"], False, ["-std=c++17"]), "bits": ("tu/bits.cpp", ["macis"], False), "asci": ("tu/asci.cpp", ["macis"], True, ["-DKokkos=macis_Kokkos", "-Dsparsexx=macis_sparsexx"]), "score": ("tu/score.cpp", ["macis"], True, ["-DKokkos=macis_Kokkos", "-Dsparsexx=macis_sparsexx"]), "search": ("tu/search.cpp", ["macis"], True, ["-DKokkos=macis_Kokkos", "-Dsparsexx=macis_sparsexx", "-std=c++17"]), "solver": ("tu/solver.cpp", ["macis"], True, ["-DKokkos=macis_Kokkos", "-Dsparsexx=macis_sparsexx", "-Dlobpcgxx=macis_lobpcgxx", "-std=c++17"]), "ham": ("tu/ham.cpp", ["macis"], True, ["-DKokkos=macis_Kokkos", "-Dsparsexx=macis_sparsexx"])}
def load(nm):
    # the renaming puts every namespace of interest under the one filter of a single clang run
    t, f, mpi, *x = TUS[nm]
    return astload.Program(astload.clang_ast(os.path.join(astload.ROOT, t), f, extra=x[0] if x else (), mpi=mpi))
def collect(v, nctx, res):
    """add the outcome of the contexts from nctx on to the plain-data result"""
    for C in v.ctxs[nctx:]:
        for o in C.ex.obls:
            res["obls"].append({"name": "%s: %s" % (C.name, o.name), "status": o.status, "kind": o.kind, "fn": o.fn, "backend": o.backend, "info": o.info if o.status != "proved" else "", "time": o.time})
            res["kinds"][o.kind] = res["kinds"].get(o.kind, 0) + 1; res["backends"][o.backend] = res["backends"].get(o.backend, 0) + 1
            if o.fn != "?": res["fns"].add(o.fn)
        res["fns"] |= set(C.ex.functions)
        if getattr(C, "vacuous", False): res["vacuous"].append(C.name)
        res["assumed"] |= C.ex.assumed
        for k in C.ex.houdini_stats: res["loops"][k] = res["loops"].get(k, 0) + C.ex.houdini_stats[k]
def empty(): return {"unsupported": [], "obls": [], "kinds": {}, "backends": {}, "fns": set(), "vacuous": [], "assumed": set(), "loops": {}, "used": set(), "solver_s": 0.0, "cvc5": {"tried": 0, "also_proved_by_cvc5": 0}}
def one_job(v, nm, j, prof=False):
    res = empty(); nctx = len(v.ctxs); t0 = smt.STATS["time"]
    try: j()
    except X.Unsupported as e:
        res["unsupported"].append([nm, str(e)])
        if prof: traceback.print_exc()
        for C in v.ctxs[nctx:]: C.ex.obls = []
    except RecursionError as e:
        res["unsupported"].append([nm, "recursion limit"])
        for C in v.ctxs[nctx:]: C.ex.obls = []
    except Exception as e:
        res["unsupported"].append([nm, "internal: " + repr(e)[:300] + traceback.format_exc()[-600:]])
        if prof: traceback.print_exc()
        for C in v.ctxs[nctx:]: C.ex.obls = []
    collect(v, nctx, res)
    res["used"] = set(builtins_.USED); res["solver_s"] = smt.STATS["time"] - t0
    return res
def second(v, res, tier, nctx=0):
    """second back end on a sample of the solver-discharged obligations"""
    tot = agree = 0
    lim = 8 if tier == "quick" else 200; t0 = time.time()
    for C in v.ctxs[nctx:]:
        for o in C.ex.obls:
            if o.status == "proved" and o.backend == "z3" and o.kind in ("post", "lemma") and tot < lim and time.time() - t0 < (8 if tier == "quick" else 300):
                tot += 1
                try:
                    h, g = smt.skolem(o.goal)
                    r = smt.cvc5_check(list(o.hyps) + h, g, 1500 if tier == "quick" else 20000)
                    if r.status == "proved": agree += 1
                except Exception: pass
    res["cvc5"] = {"tried": tot, "also_proved_by_cvc5": agree}
def merge(a, b):
    a["unsupported"] += b["unsupported"]; a["obls"] += b["obls"]; a["vacuous"] += b["vacuous"]
    for k in ("kinds", "backends", "loops"):
        for x, n in b[k].items(): a[k][x] = a[k].get(x, 0) + n
    for k in ("fns", "assumed", "used"): a[k] |= b[k]
    a["solver_s"] += b["solver_s"]
    for k in a["cvc5"]: a["cvc5"][k] += b["cvc5"][k]
def finish(r):
    return {"z3": z3.get_version_string(), "unsupported": r["unsupported"], "obls": r["obls"], "functions": sorted(r["fns"]), "kinds": r["kinds"], "backends": r["backends"], "vacuous": r["vacuous"],
            "assumed": sorted(r["assumed"]), "loops": r["loops"], "trusted": sorted("contract of " + x for x in r["used"]), "solver_s": round(r["solver_s"], 2), "cvc5": r["cvc5"]}
def run_property(pid, tier, prof=False, par=False):
    mod = importlib.import_module(pid.lower())
    res = empty(); v = None
    try:
        prog = load(getattr(mod, "TU", "sparse"))
        v = V(prog); v.tier = tier; v.load = load
        jobs = mod.jobs(v) if hasattr(mod, "jobs") else [("contract", lambda: mod.run(prog, v))]
    except astload.ExtractError as e:
        res["unsupported"].append(["extraction", str(e)[-800:]])
        return finish(res), None
    except X.Unsupported as e:
        res["unsupported"].append(["contracts", str(e)[-800:]])
        return finish(res), None
    if not par:
        for nm, j in jobs: merge(res, one_job(v, nm, j, prof))
        return finish(res), v
    # one child per contract; results come back as plain data
    import pickle, tempfile, signal
    todo = list(enumerate(jobs)); running = {}; out = {}
    lim = getattr(mod, "JOB_LIMIT", 380)
    while todo or running:
        while todo and len(running) < 6:
            k, (nm, j) = todo.pop(0)
            f = tempfile.NamedTemporaryFile(delete=False); f.close()
            p = os.fork()
            if p == 0:
                try:
                    nctx = len(v.ctxs); r = one_job(v, nm, j); second(v, r, tier, nctx)
                    with open(f.name, "wb") as fh: pickle.dump(r, fh)
                finally: os._exit(0)
            running[p] = (k, nm, f.name, time.time())
        p, _ = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            for q, (k, nm, fn, t) in running.items():
                if time.time() - t > lim: os.kill(q, signal.SIGKILL)
            time.sleep(0.02); continue
        k, nm, fn, t = running.pop(p)
        try:
            with open(fn, "rb") as fh: out[k] = pickle.load(fh)
        except Exception:
            out[k] = empty(); out[k]["unsupported"].append([nm, "the proof of this contract did not finish (%.0f s)" % (time.time() - t)])
        os.unlink(fn)
    for k in sorted(out): merge(res, out[k])
    return finish(res), v
if __name__ == "__main__":
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 3:
        res, v = run_property(pid, tier, par=True)
        with open(sys.argv[3], "w") as f: json.dump(res, f)
    else:
        res, v = run_property(pid, tier, prof=True)
        vb = tier == "-v"
        for C in (v.ctxs if v else []):
            n = len(C.ex.obls); ok = sum(o.status == "proved" for o in C.ex.obls)
            print("==", C.name, "obligations", n, "proved", ok, "vacuous", getattr(C, "vacuous", None), "time %.1f" % getattr(C, "time", -1), C.ex.houdini_stats)
            for o in C.ex.obls:
                if o.status != "proved" or vb: print("   ", o.status, o.kind, o.fn, o.name[:200], "%.2f" % o.time, o.info[:100] if o.status != "proved" else "")
            if vb:
                for x in C.ex.loopinfo:
                    print("  loop in", x[0], "depth", x[1], "init-ok", x[3]);
                    for c in x[2]: print("      inv", c)
        print(res["unsupported"]); print(smt.STATS)
