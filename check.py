#!/usr/bin/env python3-vt
"""check.py <property id> [quick|thorough]: discharge the contracts of one property on /repo's current code."""
import sys, os, json, time, subprocess, threading, traceback, hashlib, importlib, tempfile, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "vc")); sys.path.insert(0, os.path.join(ROOT, "specs"))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))

class Harness:
    """compile and run the replay harness of a property against /repo's sources"""
    def __init__(self, pid, mod):
        self.pid = pid; self.src = os.path.join(ROOT, "harness", pid.lower() + ".cpp")
        self.exists = os.path.exists(self.src)
        self.extra_src = [s.replace("$REPO", REPO) for s in getattr(mod, "HARNESS_SRC", [])]
        self.flags = list(getattr(mod, "HARNESS_FLAGS", []))
        self.libs = list(getattr(mod, "HARNESS_LIBS", []))
        self.mpi = getattr(mod, "HARNESS_MPI", 0)
        self.asan = getattr(mod, "HARNESS_ASAN", True)
        self.dir = tempfile.mkdtemp(prefix="vharn_%s_" % pid)
        self.bin = os.path.join(self.dir, "h"); self.err = None; self.time = 0
    def compile(self):
        inc = ["-I" + ROOT + "/harness", "-I" + ROOT + "/stubs", "-I" + ROOT + "/stubs/cfg", "-I" + REPO + "/include", "-I" + REPO + "/src/sparsexx/include",
               "-I" + REPO + "/src/lobpcgxx/include", "-I" + REPO + "/src/macis", "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/include/eigen3"]
        base = ["g++", "-std=c++20", "-O1", "-w", "-DNDEBUG", "-ffp-contract=off"] + (["-fsanitize=address", "-DHV_ASAN=1"] if self.asan else ["-DHV_ASAN=0"]) + self.flags + inc
        t0 = time.time()
        srcs = [self.src] + self.extra_src
        ps = []; objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(self.dir, "o%d.o" % i); objs.append(o)
            ps.append(subprocess.Popen(base + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in ps:
            out, _ = p.communicate()
            if p.returncode: self.err = out[-3000:]
        if self.err is None:
            r = subprocess.run(base[:1] + ["-fsanitize=address"] * self.asan + objs + ["-o", self.bin] + self.libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: self.err = r.stdout[-3000:]
        self.time = time.time() - t0
        return self.err is None
    def run(self, seed, tier, timeout):
        """-> (status, text): ok / fail / error"""
        res = []
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=0:allocator_may_return_null=1", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1",
                   OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl_vader_single_copy_mechanism="none", HV_DIR=self.dir)
        cmds = [[self.bin, str(seed), tier]]
        if self.mpi: cmds = [["mpirun", "--oversubscribe", "-np", str(k), self.bin, str(seed), tier] for k in self.mpi]
        txt = ""
        for cmd in cmds:
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=self.dir)
                o = r.stdout.decode("utf8", "replace")
            except subprocess.TimeoutExpired as e:
                return "fail", "FAIL the code under test did not terminate within %d s\n%s" % (timeout, (e.stdout or b"").decode("utf8", "replace")[-2000:])
            txt += o[-6000:]
            if "FAIL" in o: return "fail", o[-6000:]
            if r.returncode != 0 or "OK cases=" not in o: return "error", "exit %d\n" % r.returncode + o[-4000:]
        return "ok", txt
    def clean(self): shutil.rmtree(self.dir, ignore_errors=True)

def prove(pid, mod, tier, q):
    """run in this process"""
    import runner
    q.update(runner.run_property(pid, mod, tier))

def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.txt"); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid): r.append(l[len("known: "):])
    return r

def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    h = Harness(pid, mod)
    hres = {}
    def hrun():
        if not h.exists: hres["status"] = "none"; return
        if not h.compile(): hres["status"], hres["text"] = "error", h.err; return
        t = time.time()
        hres["status"], hres["text"] = h.run(SEED, tier, 700 if tier == "thorough" else 200)
        hres["time"] = time.time() - t
    th = threading.Thread(target=hrun); th.start()
    # the proof runs in a child so that a runaway query cannot take the check with it
    lim = getattr(mod, "PROOF_LIMIT", 300)
    def proof(n, env, lim):
        rf = os.path.join(h.dir, "proof%d.json" % n)
        try:
            p = subprocess.run(["python3-vt", os.path.join(ROOT, "vc", "runner.py"), pid, tier, rf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim, env=env)
            ptxt = p.stdout.decode("utf8", "replace")
            return json.load(open(rf)) if os.path.exists(rf) else {"fatal": ptxt[-3000:], "obls": [], "unsupported": [["(proof run)", ptxt[-1500:]]], "functions": []}
        except subprocess.TimeoutExpired:
            return {"fatal": "proof run exceeded %d s" % lim, "obls": [], "unsupported": [["(proof run)", "time limit %d s" % lim]], "functions": []}
    res = proof(0, None, lim)
    if any(o["status"] != "proved" for o in res["obls"]) and time.time() - t0 < 200:
        # solver luck must not decide: a second attempt with other seeds and more time (skipped when the replay already failed)
        th.join(1)
        if hres.get("status") != "fail":
            res2 = proof(1, dict(os.environ, VC_SEED="17", VC_SCALE="2.5"), 250)
            if sum(o["status"] != "proved" for o in res2["obls"]) < sum(o["status"] != "proved" for o in res["obls"]) and len(res2["unsupported"]) <= len(res["unsupported"]): res = res2
    th.join()
    failed = [o for o in res["obls"] if o["status"] != "proved"]
    viol = None
    repdir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(repdir, exist_ok=True)
    rep = os.path.join(repdir, pid + ".txt")
    def body(text):
        with open(rep, "w") as f: f.write(text)
    fl = "\n".join("FAILED OBLIGATION [%s] %s: %s -- %s (%s) %s" % (o["kind"], o["fn"], o["name"], o["status"], o["backend"], o["info"][:1500]) for o in failed[:30])
    if hres.get("status") == "fail":
        body("property %s\n%s\n\nREPLAY on the real code (harness/%s.cpp, seed %d):\n%s\n" % (pid, fl or "(no failed obligation; the replay harness alone found this)", pid.lower(), SEED, hres["text"]))
        viol = "VIOLATION property=%s replay=%s" % (pid, rep)
    elif failed:
        # look harder for an input
        st = ("none", "")
        if hres.get("status") == "ok" and tier != "thorough": 
            for sd in (SEED + 100, SEED + 200):
                st = h.run(sd, "thorough" if sd == SEED + 100 else "quick", 100)
                if st[0] == "fail" and "did not terminate" not in st[1]: break
        if st[0] == "fail" and "did not terminate within" not in st[1] and "signal 14" not in st[1]:
            body("property %s\n%s\n\nREPLAY on the real code:\n%s\n" % (pid, fl, st[1])); viol = "VIOLATION property=%s replay=%s" % (pid, rep)
        else:
            body("property %s\n%s\n\nno failing input found\n" % (pid, fl)); viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rep)
    n = len(res["obls"]); ok = n - len(failed)
    vac = res.get("vacuous") or []
    level = "proof" if n and not res["unsupported"] and not res.get("bounded") else ("proof" if n else "other")
    import re
    m = re.findall(r"OK cases=(\d+) nontrivial=(\d+)", hres.get("text", "") or "")
    cov = {"obligations": n, "discharged": ok,
           "checker_cmd": "python3-vt vc/runner.py %s %s (clang AST of /repo -> obligations -> z3 %s)" % (pid, tier, res.get("z3", "")),
           "trusted_base": sorted(set(res.get("trusted", []))) + ["clang 18 front end (AST of the instantiated templates)", "the obligation generator in /verif/vc", "z3"],
           "functions_under_contract": res.get("functions", []),
           "obligations_by_kind": res.get("kinds", {}), "obligations_by_backend": res.get("backends", {}), "solver_time_s": res.get("solver_s"),
           "cross_checked_cvc5": res.get("cvc5"),
           "loops": res.get("loops"), "vacuous_contracts": vac,
           "not_reached_by_the_verifier": res["unsupported"],
           "bounded_standins": getattr(mod, "BOUNDED", []) + (["on this run the whole property: %s" % res.get("fatal", "")[:300]] if not n else []),
           "replay_harness": {"status": hres.get("status"), "evaluations": sum(int(a) for a, b in m), "distinct_nontrivial": sum(int(b) for a, b in m), "samples": re.findall(r"SAMPLE (.*)", hres.get("text", "") or ""), "compile_s": round(h.time, 1)}}
    if not n:
        cov["explanation"] = "the verifier could not process the current code (%s); the bounded replay harness decided this run" % str(res["unsupported"])[:500]
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": sorted(set(res.get("assumed", []))) + list(getattr(mod, "ASSUME", [])), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    h.clean()
    for k in known_findings(pid): print("KNOWN-FINDING: " + k)
    print("%s: %d obligations, %d discharged, %d functions; harness %s; %.1f s" % (pid, n, ok, len(res.get("functions", [])), hres.get("status"), time.time() - t0))
    for u in res["unsupported"]: print("  not reached: %s: %s" % (u[0], str(u[1])[:300]))
    for o in failed[:12]: print("  failed obligation [%s] %s: %s (%s)" % (o["kind"], o["fn"], o["name"][:160], o["status"]))
    if viol: print(viol); sys.exit(1)
    if vac: print("error: vacuous contract %s" % vac); sys.exit(2)
    if hres.get("status") == "error" and (res["unsupported"] or not n):
        print("error: neither the verifier nor the replay harness could process the code:\n" + (hres.get("text") or "")[:2000]); sys.exit(2)
    if hres.get("status") == "error": print("note: replay harness unavailable: " + (hres.get("text") or "")[:1500])
    if not n and hres.get("status") != "ok": print("error: nothing decided"); sys.exit(2)
    sys.exit(0)
if __name__ == "__main__": main()
